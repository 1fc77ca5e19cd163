"""C17: ADMM reports its iterates truthfully and returns the one of least merit."""
import time
from fractions import Fraction as F

import numpy as np
from scipy.optimize import Bounds, LinearConstraint, milp
from qiskit.algorithms import NumPyMinimumEigensolver
from qiskit_optimization.algorithms import (
    ADMMOptimizer,
    CplexOptimizer,
    MinimumEigenOptimizer,
    SlsqpOptimizer,
)
from qiskit_optimization.algorithms.admm_optimizer import (
    ADMMParameters,
    UPDATE_RHO_BY_RESIDUALS,
    UPDATE_RHO_BY_TEN_PERCENT,
)
from qiskit_optimization.converters import IntegerToBinary

from vp import gen
from vp.checks.c10 import all_bits
from vp.ref import B, C, I, RefCon, build, evaluate_many, read
from vp.results import check_result
from vp.stubs import inner_optimizer

PROPERTY = "C17"
LEVEL = "exploration"
RULE = (
    "mixed binary, integer and continuous problems (linear and quadratic constraints, both senses) "
    "solved with recorded sub-solvers that answer arbitrarily, greedily or exactly; every "
    "subproblem, iterate, residual, multiplier and penalty is recomputed from the recorded trace; "
    "non-trivial: at least two iterations; distinct by problem and trace"
)
CASES = {"quick": 1870, "thorough": 22440}
REQUIRED = {
    "iterations": 1500,
    "time-limit": 20,
    "step1": 800,
    "step2": 1500,
    "step3": 600,
    "two-block": 100,
    "rho:ten-percent": 100,
    "rho:raised": 50,
    "rho:lowered": 20,
    "stopped-by-residual": 20,
    "stopped-by-limit": 200,
    "least-merit-not-last": 100,
    "maximize": 200,
    "integer-variables": 100,
    "warm-start": 50,
    "reused": 50,
    "real-solvers": 40,
    "real:solvable": 20,
    "real:unsolvable": 8,
}


def problem(rng):
    """A problem whose binary and continuous parts are separable in the objective."""
    ref = gen.qp(
        rng,
        n=rng.choice([1, 2, 3, 4, 5, rng.choice([5, 8, 11])]),
        types=rng.choice([(B, C), (B, C), (B, I, C), (B,), (C,), (I, C)]),
        max_lin=3,
        max_quad=1,
        width=3,
        style=rng.choice(["small", "dyadic", "sparse"]),
        con_style=rng.choice(["small", "sparse", "dyadic"]),
    )
    cont = {i for i, v in enumerate(ref.vars) if v.type == C}
    ref.quad = {(i, j): v for (i, j), v in ref.quad.items() if (i in cont) == (j in cont)}
    if rng.random() < 0.3 and any(v.type == B for v in ref.vars):
        # a binary variable in a product only
        i = rng.choice([i for i, v in enumerate(ref.vars) if v.type != C])
        ref.lin.pop(i, None)
    return ref


def in_bounds(rng, ref):
    x = []
    for v in ref.vars:
        lo = max(float(v.lb), -4.0)
        up = min(float(v.ub), 4.0)
        if v.type == C:
            x.append(rng.choice([lo, up, lo + (up - lo) * rng.randint(0, 8) / 8]))
        else:
            x.append(float(rng.randint(int(lo), int(up))))
    return tuple(x)


def near(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    scale = 1 + (np.abs(b).max() if b.size else 0)
    return bool(np.all(np.abs(a - b) <= tol * scale))


def mean_zero(values):
    """Objectives are compared up to a constant."""
    return values - values[0]


def check_run(rng, mon, opt, par, qubo, cont, ref, script):
    del qubo.calls[:]
    del cont.calls[:]
    script["plan"] = rng.choice(["random", "random", "converge", "constant"])
    qp = build(ref, rng)
    text = "{} {} {}".format(script["plan"], par, ref)
    mon.note(text)
    res = opt.solve(qp)
    state = res.state
    check_result(mon, res, ref, qp, text)
    if ref.sense == -1:
        mon.event("maximize")
    if any(v.type == I for v in ref.vars):
        mon.event("integer-variables")

    conv = IntegerToBinary()
    full = read(conv.convert(build(ref, rng)))  # decided by C07
    bins = [i for i, v in enumerate(full.vars) if v.type == B]
    cons = [i for i, v in enumerate(full.vars) if v.type == C]
    names = [v.name for v in full.vars]
    sign = full.sense
    nb = len(bins)
    bin_eq = [c for c in full.lcons if c.sense == "==" and set(c.lin) <= set(bins)]
    in_obj = {i for i in full.lin} | {i for ij in full.quad for i in ij}
    in_eq = {i for c in bin_eq for i in c.lin}
    step1 = [i for i in bins if i in in_obj or i in in_eq]

    x0, z, y = np.zeros(nb), np.zeros(nb), np.zeros(nb)
    lam = np.zeros(nb)
    rho = par.rho_initial
    u = np.zeros(len(cons))
    z_first = np.zeros(nb)
    q_calls, c_calls = list(qubo.calls), list(cont.calls)
    if par.warm_start:
        mon.event("warm-start")
        mon.check(c_calls, "no-warm-start", text)
        relaxed, sol = c_calls[0][0], np.array(c_calls[0][1])
        del c_calls[0]
        mon.check(all(v.type == C for v in relaxed.vars), "warm-start-types", text)
        mon.equal([v.name for v in relaxed.vars], names, "warm-start-names", text)
        mon.equal(
            [(float(v.lb), float(v.ub)) for v in relaxed.vars],
            [(float(v.lb), float(v.ub)) for v in full.vars],
            "warm-start-bounds",
            text,
        )
        pts = np.array([in_bounds(rng, full) for _ in range(6)])
        mon.check(
            near(relaxed.sense * relaxed.values(pts), sign * full.values(pts)),
            "warm-start-objective",
            text,
        )
        mon.equal(
            [c.key() for c in relaxed.cons], [c.key() for c in full.cons], "warm-start-cons", text
        )
        x0, z, u = sol[bins], sol[bins], sol[cons]
    n_iter = len(state.merits)
    for name in (
        "cost_iterates residuals dual_residuals cons_r lambdas x0_saved u_saved z_saved y_saved"
    ).split():
        mon.equal(len(getattr(state, name)), n_iter, "length:" + name, text)
    mon.check(1 <= n_iter <= par.maxiter, "iteration-count", lambda: "{} {}".format(n_iter, text))
    mon.equal(len(q_calls), n_iter if step1 else 0, "step1-calls", text)
    mon.equal(
        len(c_calls),
        n_iter * (2 if par.three_block and bins else 1),
        "continuous-calls",
        text,
    )
    if not par.three_block:
        mon.event("two-block")
    merits, iterates = [], []
    for k in range(n_iter):
        where = "iteration {} {}".format(k, text)
        mon.event("iterations")
        if step1:
            mon.event("step1")
            prog, sol, _, _ = q_calls.pop(0)
            mon.equal([v.name for v in prog.vars], [names[i] for i in step1], "step1-vars", where)
            mon.check(all(v.type == B for v in prog.vars), "step1-types", where)
            mon.check(not prog.cons and prog.sense == 1, "step1-shape", where)
            rel = [bins.index(i) for i in step1]
            pts = all_bits(len(step1))
            wide = np.zeros((len(pts), full.n))
            wide[:, step1] = pts
            own = {i: v for i, v in full.lin.items() if i in bins}
            ownq = {ij: v for ij, v in full.quad.items() if ij[0] in bins}
            want = sign * evaluate_many(0, own, ownq, wide)
            for c in bin_eq:
                want += par.factor_c / 2 * (evaluate_many(-c.rhs, c.lin, {}, wide)) ** 2
            want += rho / 2 * ((pts - z[rel] - y[rel]) ** 2).sum(axis=1)
            want += pts @ lam[rel]
            got = prog.values(pts)
            mon.check(
                near(mean_zero(got), mean_zero(want)),
                "step1-objective",
                lambda: "{} instead of {} {}".format(mean_zero(got), mean_zero(want), where),
            )
            x0 = np.zeros(nb)
            x0[rel] = sol
        mon.event("step2")
        prog, sol, _, _ = c_calls.pop(0)
        mon.equal([v.name for v in prog.vars], names, "step2-vars", where)
        mon.check(all(v.type == C for v in prog.vars), "step2-types", where)
        mon.equal(
            [(float(v.lb), float(v.ub)) for v in prog.vars],
            [(float(v.lb), float(v.ub)) for v in full.vars],
            "step2-bounds",
            where,
        )
        mon.equal(
            [c.key() for c in prog.cons],
            [c.key() for c in full.cons if c not in bin_eq],
            "step2-constraints",
            where,
        )
        pts = np.array([in_bounds(rng, prog) for _ in range(8)])
        ownc = {i: v for i, v in full.lin.items() if i in cons}
        ownq = {ij: v for ij, v in full.quad.items() if ij[0] in cons}
        want = sign * evaluate_many(0, ownc, ownq, pts)
        zz = pts[:, bins]
        want += rho / 2 * ((zz - x0 + y) ** 2).sum(axis=1) - zz @ lam
        got = prog.sense * prog.values(pts)
        mon.check(
            near(mean_zero(got), mean_zero(want)),
            "step2-objective",
            lambda: "{} instead of {} {}".format(mean_zero(got), mean_zero(want), where),
        )
        z, u = np.array(sol)[bins], np.array(sol)[cons]
        if par.three_block and bins:
            mon.event("step3")
            prog, sol, _, _ = c_calls.pop(0)
            mon.equal(len(prog.vars), nb, "step3-vars", where)
            mon.check(all(v.type == C for v in prog.vars), "step3-types", where)
            mon.check(not prog.cons, "step3-shape", where)
            pts = np.array([[rng.randint(-8, 8) / 4 for _ in bins] for _ in range(8)])
            want = par.beta / 2 * (pts ** 2).sum(axis=1) - pts @ lam
            want += rho / 2 * ((x0 - z - pts) ** 2).sum(axis=1)
            got = prog.sense * prog.values(pts)
            mon.check(
                near(mean_zero(got), mean_zero(want)),
                "step3-objective",
                lambda: "{} instead of {} {}".format(mean_zero(got), mean_zero(want), where),
            )
            y = np.array(sol, dtype=float)
        lam = lam + rho * (x0 - z - y)
        # iterates
        mon.check(near(state.x0_saved[k], x0), "x0-saved", where)
        mon.check(near(state.u_saved[k], u), "u-saved", where)
        mon.check(near(state.z_saved[k], z), "z-saved", where)
        mon.check(near(state.y_saved[k], y), "y-saved", where)
        mon.close(state.lambdas[k], np.linalg.norm(lam), "lambdas", where, 1e-6)
        # values
        point = np.zeros(full.n)
        point[bins] = x0
        point[cons] = u
        iterates.append(point)
        cost = float(sign * full.values(point[None, :])[0])
        mon.close(state.cost_iterates[k], cost, "cost", where, 1e-6)
        viol = 0.0
        for c in full.cons:
            d = float(evaluate_many(-c.rhs, c.lin, c.quad or {}, point[None, :])[0])
            viol += abs(d) if c.sense == "==" else max(d, 0) if c.sense == "<=" else max(-d, 0)
        mon.close(state.cons_r[k], viol, "violation", where, 1e-6)
        merit = cost + par.mu_merit * viol
        mon.close(state.merits[k], merit, "merit", where, 1e-6)
        merits.append(merit)
        primal = float(np.linalg.norm(x0 - z - y))
        mon.close(state.residuals[k], primal, "primal-residual", where, 1e-6)
        if k or not par.warm_start:
            last = z_first if k == 0 else np.asarray(state.z_saved[k - 1])
            dual = float(rho * np.linalg.norm(z - last))
            mon.close(state.dual_residuals[k], dual, "dual-residual", where, 1e-6)
        dual = float(state.dual_residuals[k])
        # penalty
        if par.vary_rho == UPDATE_RHO_BY_TEN_PERCENT:
            mon.event("rho:ten-percent")
            if rho < 1e10:
                rho = rho * 1.1
        elif abs(primal - par.mu_res * dual) < 1e-7 or abs(dual - par.mu_res * primal) < 1e-7:
            mon.event("rho:tie")
            if primal > 1e-12 or dual > 1e-12:
                return  # which side rounding falls on is not the oracle's to say
        elif primal > par.mu_res * dual:
            mon.event("rho:raised")
            rho = rho * par.tau_incr
        elif dual > par.mu_res * primal:
            mon.event("rho:lowered")
            rho = rho / par.tau_decr
        else:
            mon.event("rho:kept")
        if k < n_iter - 1:
            mon.check(primal > par.tol, "went-on-after-convergence", where)
    mon.close(state.rho, rho, "rho", text, 1e-6)
    if n_iter < par.maxiter:
        mon.event("stopped-by-residual")
        mon.check(primal <= par.tol, "stopped-early", lambda: "{} {}".format(primal, text))
    else:
        mon.event("stopped-by-limit")
    least = min(merits)
    close = [
        p for p, m in zip(iterates, merits) if m <= least + 1e-7 * (1 + abs(least))
    ]
    if merits[-1] > least + 1e-6 * (1 + abs(least)):
        mon.event("least-merit-not-last")
    mon.check(
        any(near(res.x, conv.interpret(p)) for p in close),
        "not-least-merit",
        lambda: "{} merits {} of {} {}".format(res.x, merits, iterates, text),
    )
    if n_iter > 1:
        mon.seen((ref.key(), [tuple(p) for p in iterates]))


def real(rng, mon):
    ref = problem(rng)
    ref.qcons = []
    qp = build(ref, rng)
    cont = SlsqpOptimizer() if rng.random() < 0.5 else CplexOptimizer(disp=False)
    if isinstance(cont, CplexOptimizer):
        ref = ref.copy()
        ref.quad = {(i, i): abs(v) * ref.sense for (i, j), v in ref.quad.items() if i == j}
        if rng.random() < 0.3:
            i = rng.randrange(ref.n)
            ref.lcons.append(RefCon("beyond", {i: 2}, None, ">=", 2 * ref.vars[i].ub + 1))
        qp = build(ref, rng)
    kw = {
        "qubo_optimizer": MinimumEigenOptimizer(NumPyMinimumEigensolver()),
        "continuous_optimizer": cont,
    }
    if isinstance(cont, SlsqpOptimizer) and rng.random() < 0.5:
        mon.event("default-solvers")
        kw = {rng.choice(list(kw)): None}
    opt = ADMMOptimizer(
        **kw,
        params=ADMMParameters(
            rho_initial=101, beta=100, factor_c=90, maxiter=4, three_block=rng.random() < 0.5
        ),
    )
    res = opt.solve(qp)
    mon.event("real-solvers")
    if isinstance(cont, CplexOptimizer):
        # without a point only if there is none
        check_result(mon, res, ref, qp, repr(ref))
        rest = relaxed(ref)
        mon.event("real:" + ("solvable" if rest else "unsolvable"))
        mon.equal(res.x is not None, rest, "subproblem-without-solution", repr(ref))
    elif all(np.isfinite(res.x)):
        check_result(mon, res, ref, qp, repr(ref))


def relaxed(ref):
    """Is there a point when integrality, and equations of binary variables alone, are dropped?"""
    rows, lo, up = [], [], []
    for c in ref.lcons:
        if c.sense == "==" and all(ref.vars[i].type != C for i in c.lin):
            continue
        rows.append([float(c.lin.get(i, 0)) for i in range(ref.n)])
        lo.append(-np.inf if c.sense == "<=" else float(c.rhs))
        up.append(np.inf if c.sense == ">=" else float(c.rhs))
    res = milp(
        np.zeros(ref.n),
        constraints=LinearConstraint(np.array(rows).reshape(-1, ref.n), lo, up) if rows else None,
        bounds=Bounds([float(v.lb) for v in ref.vars], [float(v.ub) for v in ref.vars]),
    )
    return res.x is not None


def out_of_time(rng, mon):
    """The time limit ends the iterations; sleeping makes an iteration take at least `step`."""
    step, most = 0.03, rng.choice([0.02, 0.05, 0.08])
    ref = problem(rng)

    def slow(sub):
        time.sleep(step)
        return in_bounds(rng, sub), None

    opt = ADMMOptimizer(
        inner_optimizer(lambda sub: (tuple(float(rng.randint(0, 1)) for _ in sub.vars), None)),
        inner_optimizer(slow),
        ADMMParameters(maxiter=60, tol=-1.0, max_time=most, three_block=False),
    )
    res = opt.solve(build(ref, rng))
    count = len(res.state.merits)
    mon.event("time-limit")
    # the limit is looked at after every iteration
    mon.check(
        1 <= count <= int(most / step) + 1,
        "time-limit",
        lambda: "{} iterations of {} s in {} s: {}".format(count, step, most, ref),
    )


def run_case(rng, mon, k, tier):
    ref = problem(rng)
    script = {"plan": "random", "last": None}

    def qubo_answer(sub):
        x = tuple(float(rng.randint(0, 1)) for _ in sub.vars)
        script["last"] = dict(zip([v.name for v in sub.vars], x))
        return x, None

    def cont_answer(sub):
        if script["plan"] == "converge" and rng.random() < 0.7:
            if all(abs(float(v.lb)) >= 1e20 for v in sub.vars):
                return tuple(0.0 for _ in sub.vars), None
            last = script["last"] or {}
            x = list(in_bounds(rng, sub))
            for i, v in enumerate(sub.vars):
                if v.name in last:
                    x[i] = last[v.name]
                elif (v.lb, v.ub) == (0, 1):
                    x[i] = 0.0
            return tuple(x), None
        if script["plan"] == "constant":
            return tuple(max(min(0.5, float(v.ub)), float(v.lb)) for v in sub.vars), None
        return in_bounds(rng, sub), None

    qubo, cont = inner_optimizer(qubo_answer), inner_optimizer(cont_answer)
    par = ADMMParameters(
        rho_initial=rng.choice([1, 10, 100, 1001, 10000, 9e9]),
        factor_c=rng.choice([10, 100, 900, 100000]),
        beta=rng.choice([1, 10, 1000]),
        **{rng.choice(["maxiter"] * 4 + ["max_iter"]): rng.choice([1, 2, 3, 5, 9])},
        tol=rng.choice([1e-4, 1e-6, 0.6]),
        three_block=rng.random() < 0.6,
        vary_rho=rng.choice([UPDATE_RHO_BY_TEN_PERCENT, UPDATE_RHO_BY_RESIDUALS]),
        tau_incr=rng.choice([2, 3, 1.5]),
        tau_decr=rng.choice([2, 4, 1.25]),
        mu_res=rng.choice([10, 2, 0.01]),
        mu_merit=rng.choice([1, 1000, 0.5, 0]),
        warm_start=rng.random() < 0.2,
    )
    if rng.random() < 0.7:
        opt = ADMMOptimizer(qubo, cont, par)
    else:
        # parameters given afterwards, also after a run with others
        opt = ADMMOptimizer(qubo, cont)
        if rng.random() < 0.5:
            opt.parameters = ADMMParameters(maxiter=1, three_block=not par.three_block)
            opt.solve(build(problem(rng), rng))
        opt.parameters = par
        mon.event("parameters-set")
        mon.check(opt.parameters is par, "parameters-not-set")
    check_run(rng, mon, opt, par, qubo, cont, ref, script)
    if rng.random() < 0.25:
        mon.event("reused")
        check_run(rng, mon, opt, par, qubo, cont, problem(rng), script)
    if k % 20 == 0:
        real(rng, mon)
    if k % 30 == 7:
        out_of_time(rng, mon)
    if k < 3:
        mon.sample({"problem": repr(ref)[:300]})
