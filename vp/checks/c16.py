"""C16: multi-start keeps the best trial and starts where documented."""
from fractions import Fraction as F

import numpy as np
from qiskit_optimization.algorithms import OptimizationResultStatus as Status, SlsqpOptimizer
from qiskit_optimization.algorithms.multistart_optimizer import MultiStartOptimizer

from vp import gen
from vp.ref import C, RefVar, build
from vp.results import check_result, points_equal

PROPERTY = "C16"
LEVEL = "exploration"
RULE = (
    "multi-start optimizers with a scripted local solver (adversarial sequences of outcomes, best "
    "trial first, last, tied, infeasible) and the real SLSQP on non-convex problems; starts and the "
    "kept trial checked against the recorded trace; non-trivial: at least two trials; distinct by "
    "trace"
)
CASES = {"quick": 3200, "thorough": 38400}
REQUIRED = {
    "trials": 3000,
    "maximize": 300,
    "infinite-bound": 200,
    "best-first": 100,
    "best-last": 100,
    "best-middle": 50,
    "slsqp-full": 30,
    "start:random": 1500,
    "beyond-clip": 30,
    "in-place": 300,
    "undefined": 200,
    "all-undefined": 50,
    "huge": 150,
}


class Scripted(MultiStartOptimizer):
    """Runs a scripted local solver."""

    def __init__(self, script, in_place, **kw):
        super().__init__(**kw)
        self.script = script
        self.in_place = in_place
        self.trace = []

    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        def minimize(x_0):
            x, rest = self.script(len(self.trace))
            self.trace.append((np.array(x_0, dtype=float), np.array(x), rest))
            if self.in_place:
                # as solvers written in place do
                x_0[:] = x
                return x_0, rest
            return np.array(x), rest

        return self.multi_start_solve(minimize, problem)


def make(rng):
    ref = gen.qp(rng, n=rng.choice([1, 2, 3, 5, 12]), types=(C,), max_lin=2, max_quad=1)
    for v in ref.vars:
        roll = rng.random()
        if roll < 0.2:
            v.ub = 1e20
        elif roll < 0.4:
            v.lb = -1e20
        elif roll < 0.5:
            v.lb, v.ub = -1e20, 1e20
        elif roll < 0.6:
            far = float(rng.choice([3, 60, 2000]))
            v.lb, v.ub = (far, 1e20) if rng.random() < 0.5 else (-1e20, -far)
    return ref


def check_starts(mon, starts, ref, clip, text):
    for t, x_0 in enumerate(starts):
        mon.event("trials")
        mon.equal(len(x_0), ref.n, "start-length", text)
        if t == 0:
            mon.check(not np.any(x_0), "first-start", lambda: "{} {}".format(x_0, text))
            continue
        mon.event("start:random")
        for v, a in zip(ref.vars, x_0):
            lo = v.lb if v.lb > -1e20 else -clip
            up = v.ub if v.ub < 1e20 else clip
            if lo > up:  # the only bound lies beyond the clip value
                mon.event("beyond-clip")
                lo, up = v.lb, v.ub
            mon.check(
                lo - 1e-9 <= a <= up + 1e-9,
                "start-outside",
                lambda: "{} of {} clip {} {}".format(a, v, clip, text),
            )
    # starts are drawn, not repeated
    wide = [
        i
        for i, v in enumerate(ref.vars)
        if (v.ub if v.ub < 1e20 else clip) - (v.lb if v.lb > -1e20 else -clip) > 0.5
    ]
    if len(starts) > 2 and wide:
        drawn = {tuple(s[wide]) for s in starts[1:]}
        mon.check(len(drawn) == len(starts) - 1, "starts-repeated", text)


def scripted(rng, mon):
    ref = make(rng)
    trials = rng.choice([1, 1, 2, 3, 4, 7, rng.choice([10, 12, 25])])
    clip = float(rng.choice([100, 100, 10, 50, 1000, 25.5, 1, 0.5]))
    for v in ref.vars:
        if abs(v.lb) >= 1e20 or v.ub >= 1e20:
            mon.event("infinite-bound")
    pool = []
    for _ in range(trials):
        if pool and rng.random() < 0.2:
            pool.append(list(rng.choice(pool)))
        else:
            pool.append([float(rng.randint(-20, 20)) / rng.choice([1, 2, 4]) for _ in ref.vars])
    if (ref.lin or ref.quad) and rng.random() < 0.15:
        # local solvers that lose their way
        mon.event("undefined")
        for t in rng.sample(range(trials), rng.randint(1, trials)):
            pool[t] = [np.nan] * ref.n
    if rng.random() < 0.1:
        mon.event("huge")
        ref.const = rng.choice([-1, 1]) * F(10) ** rng.choice([19, 20, 22, 30])
    outputs = [("out", t) for t in range(trials)]
    in_place = rng.random() < 0.3
    if in_place:
        mon.event("in-place")
    opt = Scripted(lambda t: (pool[t], outputs[t]), in_place, trials=trials, clip=clip)
    if rng.random() < 0.3:
        opt = Scripted(lambda t: (pool[t], outputs[t]), in_place)
        opt.trials = trials
        opt.clip = clip
    mon.equal((opt.trials, opt.clip), (trials, clip), "settings")
    qp = build(ref, rng)
    text = "trials {} clip {} outcomes {} {}".format(trials, clip, pool, ref)
    mon.note(text)
    if ref.sense == -1:
        mon.event("maximize")
    res = opt.solve(qp)
    mon.equal(len(opt.trace), trials, "trial-count", text)
    check_starts(mon, [t[0] for t in opt.trace], ref, clip, text)
    vals = ref.values(np.array(pool))
    vals[[not np.isfinite(p).all() for p in pool]] = np.nan
    if np.isnan(vals).all():
        mon.event("all-undefined")
        mon.check(res.status != Status.SUCCESS, "success-without-a-point", text)
        return
    best = np.nanmin(ref.sense * vals)
    slack = 1e-9 + 1e-13 * abs(best)
    first = int(np.nanargmin(ref.sense * vals))
    if trials > 1:
        where = "first" if first == 0 else "last" if first == trials - 1 else "middle"
        mon.event("best-" + where)
        mon.seen(text)
    mon.close(res.fval, ref.sense * best, "value-of-best", text, 1e-9)
    mon.check(
        any(points_equal(res.x, p) for p, v in zip(pool, vals) if ref.sense * v <= best + slack),
        "point-of-best",
        lambda: "{} {}".format(res.x, text),
    )
    mon.check(
        any(
            res.raw_results == o and points_equal(res.x, p) for o, p in zip(outputs, pool)
        ),
        "output-of-best",
        lambda: "{} {} {}".format(res.raw_results, res.x, text),
    )
    check_result(mon, res, ref, qp, text)


def real(rng, mon):
    """SLSQP with several starts on a non-convex problem: reports of the kept trial."""
    ref = gen.qp(rng, n=rng.choice([1, 2, 3]), types=(C,), max_lin=1, max_quad=0, style="small")
    for v in ref.vars:
        v.ub = max(v.ub, v.lb + 1.0)  # finite differences need room
    qp = build(ref, rng)
    text = repr(ref)
    opt = SlsqpOptimizer(trials=rng.choice([1, 2, 4]), full_output=True)
    res = opt.solve(qp)
    mon.event("slsqp-full")
    check_result(mon, res, ref, qp, text)
    mon.close(res.fx, ref.sense * res.fval, "slsqp-fx", text, 1e-6)
    mon.check(int(res.its) >= 1 and isinstance(res.smode, str), "slsqp-output", text)
    mon.check(int(res.imode) == res.imode, "slsqp-imode", text)


def run_case(rng, mon, k, tier):
    scripted(rng, mon)
    if k % 10 == 0:
        real(rng, mon)
    if k < 3:
        mon.sample({"case": k})
