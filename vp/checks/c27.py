"""C27: local optimizers solve convex continuous problems."""
import itertools
from fractions import Fraction as F

import numpy as np
from qiskit_optimization import INFINITY
from qiskit_optimization.algorithms import CobylaOptimizer, SlsqpOptimizer
from scipy.optimize import fmin_cobyla, fmin_slsqp

from vp import gen
from vp.ref import C, RefCon, RefQP, RefVar, build, evaluate_many
from vp.results import check_result

PROPERTY = "C27"
LEVEL = "exploration"
RULE = (
    "random strictly convex (concave when maximizing) problems over boxes and half-lines with "
    "linear or convex quadratic constraints that have an interior point, solved by SLSQP and COBYLA "
    "with varied options; value compared with an enumeration of active sets (or an optimum known "
    "by construction), feasibility within solver tolerance; non-trivial: an "
    "active constraint at the optimum; distinct by problem"
)
CASES = {"quick": 740, "thorough": 8880}
REQUIRED = {
    "slsqp": 300,
    "cobyla": 300,
    "maximize": 150,
    "active-constraint": 100,
    "equality": 50,
    "linear-objective": 30,
    "several-trials": 50,
    "unbounded": 60,
    "curved": 60,
    "ring": 60,
    "large": 30,
}
ASSUMPTIONS = ["up to three variables, well-conditioned data",
    "a miss counts only if SciPy's solver, called directly on the reference model, succeeds from "
    "60 starts and constraint orders",
]


def make(rng):
    n = rng.choice([1, 2, 2, 3])
    ref = RefQP("convex")
    for name in gen.names(rng, n):
        lo = F(rng.randint(-6, 2))
        ref.vars.append(RefVar(name, C, float(lo), float(lo + rng.randint(2, 8))))
    ref.sense = rng.choice([1, -1])
    ref.const = F(rng.randint(-5, 5))
    ref.lin = {i: F(rng.randint(-6, 6)) for i in range(n)}
    ref.lin = {i: v for i, v in ref.lin.items() if v}
    if rng.random() < 0.85:
        a = [[rng.randint(-1, 1) for _ in range(n)] for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                q = sum(a[k][i] * a[k][j] for k in range(n))
                v = F(q + rng.choice([1, 2]) if i == j else 2 * q)
                if v:
                    ref.quad[i, j] = v
    ref.lin = {i: ref.sense * v for i, v in ref.lin.items()}
    ref.quad = {i: ref.sense * v for i, v in ref.quad.items()}
    far = bool(ref.quad) and rng.random() < 0.3
    if far:
        # far from the origin and with bounds missing: the limits of random starts do not matter
        move = [F(rng.choice([-300, -150, 0, 120, 250])) for _ in range(n)]
        for (i, j), v in list(ref.quad.items()):
            ref.lin[i] = ref.lin.get(i, F(0)) - v * move[j]
            ref.lin[j] = ref.lin.get(j, F(0)) - v * move[i]
        for v, d in zip(ref.vars, move):
            v.lb, v.ub = v.lb + float(d), v.ub + float(d)
    # constraints with room around a point of the interior
    inner = [F(v.lb) + (F(v.ub) - F(v.lb)) * F(rng.randint(3, 5), 8) for v in ref.vars]
    for k in range(rng.randint(0, 2)):
        lin = {i: F(rng.randint(-3, 3)) for i in range(n)}
        lin = {i: v for i, v in lin.items() if v} or {0: F(1)}
        at = sum(v * inner[i] for i, v in lin.items())
        sense = rng.choice(["<=", ">=", "=="]) if n > 1 and not ref.lcons else rng.choice(["<=", ">="])
        room = F(rng.choice([1, 2, 4]), 2)
        rhs = at if sense == "==" else at + room if sense == "<=" else at - room
        ref.lcons.append(RefCon("c{}".format(k), lin, None, sense, rhs))
    if far:
        for v in ref.vars:
            if rng.random() < 0.5:
                v.lb = -INFINITY
            if rng.random() < 0.5:
                v.ub = INFINITY
    return ref


def optimum(ref):
    """(optimal value in the sense of minimization, an optimal point) by active sets."""
    n = ref.n
    hess = np.zeros((n, n))
    for (i, j), v in ref.quad.items():
        hess[i, j] += float(v) * ref.sense
        hess[j, i] += float(v) * ref.sense
    grad = np.zeros(n)
    for i, v in ref.lin.items():
        grad[i] = float(v) * ref.sense
    rows, eqs = [], []
    for c in ref.lcons:
        row = np.zeros(n)
        for i, v in c.lin.items():
            row[i] = float(v)
        (eqs if c.sense == "==" else rows).append((row, float(c.rhs)))
    for i, v in enumerate(ref.vars):
        row = np.zeros(n)
        row[i] = 1
        if v.lb > -INFINITY:
            rows.append((row, float(v.lb)))
        if v.ub < INFINITY:
            rows.append((row, float(v.ub)))
    best, arg = None, None
    for size in range(0, n - len(eqs) + 1):
        for active in itertools.combinations(rows, size):
            cons = eqs + list(active)
            m = len(cons)
            kkt = np.zeros((n + m, n + m))
            kkt[:n, :n] = hess
            rhs = np.zeros(n + m)
            rhs[:n] = -grad
            for t, (row, val) in enumerate(cons):
                kkt[:n, n + t] = row
                kkt[n + t, :n] = row
                rhs[n + t] = val
            sol = np.linalg.lstsq(kkt, rhs, rcond=None)[0]
            if not np.allclose(kkt @ sol, rhs, atol=1e-8):
                continue
            x = sol[:n]
            if violation(ref, x) > 1e-8:
                continue
            val = ref.sense * ref.values(np.array([x]))[0]
            if best is None or val < best:
                best, arg = val, x
    return best, arg


def psd(rng, n, strict):
    """A positive (semi)definite form with small integer coefficients."""
    a = [[rng.randint(-1, 1) for _ in range(n)] for _ in range(n)]
    res = {}
    for i in range(n):
        for j in range(i, n):
            q = sum(a[k][i] * a[k][j] for k in range(n))
            v = F(q + (1 if strict else 0) if i == j else 2 * q)
            if v:
                res[i, j] = v
    return res


def slope(lin, quad, x):
    res = [lin.get(i, F(0)) for i in range(len(x))]
    for (i, j), v in quad.items():
        res[i] += v * x[j]
        res[j] += v * x[i]
    return res


def curved(rng):
    """(problem with convex quadratic constraints, optimal value, optimum), made backwards: the
    objective is chosen such that the optimality conditions hold at a chosen point."""
    n = rng.choice([1, 2, 2, 3, 4])
    ref = RefQP("curved")
    x = [F(rng.randint(-8, 8), 4) for _ in range(n)]
    for name, a in zip(gen.names(rng, n), x):
        lo, up = a - F(rng.randint(2, 12), 2), a + F(rng.randint(2, 12), 2)
        ref.vars.append(
            RefVar(
                name,
                C,
                float(lo) if rng.random() < 0.8 else -INFINITY,
                float(up) if rng.random() < 0.8 else INFINITY,
            )
        )
    ref.sense = rng.choice([1, -1])
    ref.const = F(rng.randint(-5, 5))
    pull = [F(0)] * n
    for k in range(rng.randint(1, 2)):
        lin = {i: F(rng.randint(-2, 2)) for i in range(n)}
        quad = psd(rng, n, True)
        at = sum(v * x[i] for i, v in lin.items()) + sum(
            v * x[i] * x[j] for (i, j), v in quad.items()
        )
        grad = slope(lin, quad, x)
        if rng.random() < 0.75 and any(grad):
            weight = F(rng.randint(1, 6), 2)
            pull = [p + weight * g for p, g in zip(pull, grad)]
        else:
            at += F(rng.randint(1, 6))
        if rng.random() < 0.5:
            ref.qcons.append(RefCon("q{}".format(k), lin, quad, "<=", at))
        else:
            lin = {i: -v for i, v in lin.items()}
            quad = {i: -v for i, v in quad.items()}
            ref.qcons.append(RefCon("q{}".format(k), lin, quad, ">=", -at))
    if rng.random() < 0.4:
        lin = {i: F(rng.randint(-2, 2)) for i in range(n)}
        lin = {i: v for i, v in lin.items() if v} or {0: F(1)}
        at = sum(v * x[i] for i, v in lin.items())
        sense = rng.choice(["<=", ">="])
        ref.lcons.append(RefCon("c", lin, None, sense, at + (1 if sense == "<=" else -1)))
    quad = psd(rng, n, True)
    grad = slope({}, quad, x)
    ref.lin = {i: -ref.sense * (p + g) for i, (p, g) in enumerate(zip(pull, grad)) if p + g}
    ref.quad = {i: ref.sense * v for i, v in quad.items()}
    arg = np.array([float(a) for a in x])
    return ref, ref.sense * ref.values(np.array([arg]))[0], arg


def ring(rng):
    """(linear objective on a sphere inside the box, optimal value, optimum): the sphere is a
    quadratic equality; its only local optimum is the global one."""
    n = rng.choice([1, 2, 2, 3])
    ref = RefQP("ring")
    mid = [F(rng.randint(-4, 4), 2) for _ in range(n)]
    radius = F(rng.randint(1, 6), 2)
    for name, a in zip(gen.names(rng, n), mid):
        room = radius + F(rng.randint(1, 4))
        ref.vars.append(RefVar(name, C, float(a - room), float(a + room)))
    ref.sense = rng.choice([1, -1])
    ref.const = F(rng.randint(-5, 5))
    ref.lin = {i: F(rng.randint(-4, 4)) for i in range(n)}
    ref.lin = {i: v for i, v in ref.lin.items() if v} or {0: F(1)}
    sign = rng.choice([1, -1])
    lin = {i: -2 * sign * a for i, a in enumerate(mid)}
    quad = {(i, i): F(sign) for i in range(n)}
    rhs = sign * (radius ** 2 - sum(a * a for a in mid))
    ref.qcons.append(RefCon("ring", lin, quad, "==", rhs))
    down = np.array([-ref.sense * float(ref.lin.get(i, 0)) for i in range(n)])
    arg = np.array([float(a) for a in mid]) + float(radius) * down / np.linalg.norm(down)
    return ref, ref.sense * ref.values(np.array([arg]))[0], arg


def violation(ref, x):
    worst = 0.0
    for v, a in zip(ref.vars, x):
        worst = max(worst, v.lb - a, a - v.ub)
    for c in ref.lcons + ref.qcons:
        lhs = evaluate_many(0, c.lin, c.quad or {}, np.array([x]))[0]
        d = lhs - float(c.rhs)
        worst = max(worst, d if c.sense == "<=" else -d if c.sense == ">=" else abs(d))
    return worst


def direct(name, ref, x_0, opts, rng):
    """The local solver itself, on functions of the reference model."""
    hess = np.zeros((ref.n, ref.n))
    for (i, j), v in ref.quad.items():
        hess[i, j] += float(v)
    lin = np.array([float(ref.lin.get(i, 0)) for i in range(ref.n)])

    def fun(x):
        return ref.sense * (lin @ x + x @ hess @ x)

    def grad(x):
        return ref.sense * (lin + hess @ x + hess.T @ x)

    eqs, ineqs = [], []
    for c in ref.lcons:
        row = np.array([float(c.lin.get(i, 0)) for i in range(ref.n)])
        if c.sense == "==":
            eqs.append((row, float(c.rhs)))
        else:
            sign = 1 if c.sense == ">=" else -1
            ineqs.append((sign * row, sign * float(c.rhs)))
    curves, rings = [], []
    for c in ref.qcons:
        sign = 1 if c.sense == ">=" else -1
        row = np.array([sign * float(c.lin.get(i, 0)) for i in range(ref.n)])
        mat = np.zeros((ref.n, ref.n))
        for (i, j), v in c.quad.items():
            mat[i, j] += sign * float(v)
        curve = lambda x, r=row, m=mat, d=sign * float(c.rhs): r @ x + x @ m @ x - d
        (rings if c.sense == "==" else curves).append(curve)
    bounds = [(v.lb, v.ub) for v in ref.vars]
    if name == "slsqp":
        return fmin_slsqp(
            fun,
            x_0,
            eqcons=[lambda x, r=r, d=d: r @ x - d for r, d in eqs] + rings,
            ieqcons=[lambda x, r=r, d=d: r @ x - d for r, d in ineqs] + curves,
            bounds=bounds,
            fprime=grad,
            iter=100,
            acc=opts.get("acc", 1e-6),
            iprint=0,
        )
    for r, d in eqs:
        ineqs += [(r, d), (-r, -d)]
    for i, (lb, ub) in enumerate(bounds):
        row = np.zeros(ref.n)
        row[i] = 1
        if lb > -INFINITY:
            ineqs.append((row, lb))
        if ub < INFINITY:
            ineqs.append((-row, -ub))
    cons = [lambda x, r=r, d=d: r @ x - d for r, d in ineqs] + curves + rings
    cons += [lambda x, c=c: -c(x) for c in rings]
    rng.shuffle(cons)
    return fmin_cobyla(
        fun,
        x_0,
        cons,
        rhobeg=opts.get("rhobeg", 1.0),
        rhoend=1e-4,
        maxfun=opts["maxfun"],
    )


def easy(name, ref, best, opts, trials, tol_f, tol_v, rng):
    """Whether the solver itself gets there from every start tried, whatever the order."""
    clip = opts.get("clip", 100.0)
    for t in range(60):
        x_0 = np.zeros(ref.n)
        if t % 2 and trials > 1:
            for i, v in enumerate(ref.vars):
                lo = v.lb if v.lb > -INFINITY else min(-clip, v.ub)
                up = v.ub if v.ub < INFINITY else max(clip, v.lb)
                x_0[i] = rng.uniform(lo, up)
        elif t:
            x_0 += [rng.uniform(-1, 1) * 1e-6 for _ in x_0]
        x = np.asarray(direct(name, ref, x_0, opts, rng))
        gap = ref.sense * ref.values(np.array([x]))[0] - best
        if violation(ref, x) > tol_v / 2 or abs(gap) > tol_f / 2 * (1 + abs(best)):
            return False
    return True


def judge(mon, res, ref, best, name, tol_f, tol_v, text, opts, trials, rng):
    x = [float(a) for a in res.x]
    mon.event(name)
    bad = violation(ref, x)
    gap = ref.sense * res.fval - best
    good = bad <= tol_v, abs(gap) <= tol_f * (1 + abs(best))
    if not all(good) and not easy(name, ref, best, opts, trials, tol_f, tol_v, rng):
        mon.event("solver-weak")  # SciPy's own solver does not manage this problem either
        return
    mon.check(good[0], name + "-infeasible", lambda: "by {} at {} {}".format(bad, x, text))
    mon.check(
        good[1],
        name + "-not-optimal",
        lambda: "value {} optimum {} at {} {}".format(res.fval, ref.sense * best, x, text),
    )


def run_case(rng, mon, k, tier):
    large = None
    if k % 8 == 3:
        ref, best, arg = ring(rng)
        mon.event("ring")
    elif k % 4 == 3:
        ref, best, arg = curved(rng)
        mon.event("curved")
    else:
        ref = make(rng)
        if not ref.quad and rng.random() < 0.6:
            # a linear problem of another order of magnitude
            mon.event("large")
            large = 2.0 ** rng.choice([8, 12, 14, 17])
            for v in ref.vars:
                v.lb, v.ub = v.lb * large, v.ub * large
            for c in ref.lcons:
                c.rhs *= F(large)
        best, arg = optimum(ref)
    text = repr(ref)
    mon.note(text)
    qp = build(ref, rng)
    if any(abs(v.lb) >= INFINITY or abs(v.ub) >= INFINITY for v in ref.vars):
        mon.event("unbounded")
    if ref.sense == -1:
        mon.event("maximize")
    if any(c.sense == "==" for c in ref.lcons):
        mon.event("equality")
    if not ref.quad:
        mon.event("linear-objective")
    active = [
        c
        for c in ref.lcons + ref.qcons
        if abs(evaluate_many(-c.rhs, c.lin, c.quad or {}, np.array([arg]))[0]) < 1e-6
    ]
    if active:
        mon.event("active-constraint")
        mon.seen(ref.key())
    trials = rng.choice([1, 1, 1, 3])
    if trials > 1:
        mon.event("several-trials")
    opts = {}
    if rng.random() < 0.3:
        opts["acc"] = 1e-8
    if rng.random() < 0.3:
        opts["clip"] = rng.choice([5.0, 20.0])
    slsqp = SlsqpOptimizer(trials=trials, full_output=rng.random() < 0.5, **opts)
    res = slsqp.solve(qp)
    judge(mon, res, ref, best, "slsqp", 1e-3, 1e-4, text, opts, trials, rng)
    check_result(mon, res, ref, qp, text)
    opts = {"maxfun": 20000}
    if rng.random() < 0.3:
        opts["rhobeg"] = rng.choice([0.5, 2.0])
    if large:
        opts["rhobeg"] = large / rng.choice([1, 2, 4])
    if rng.random() < 0.3:
        opts["clip"] = rng.choice([5.0, 20.0])
    cobyla = CobylaOptimizer(trials=trials, **opts)
    res = cobyla.solve(qp)
    judge(mon, res, ref, best, "cobyla", 1e-2, 1e-2, text, opts, trials, rng)
    check_result(mon, res, ref, qp, text)
    if k < 3:
        mon.sample({"problem": text[:300], "optimum": best})
