"""C09: penalty terms add exactly penalty times squared violation."""
from fractions import Fraction as F

import numpy as np
from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.converters import LinearEqualityToPenalty

from vp import gen
from vp.ref import B, C, I, RefVar, build, evaluate_many, num, read

PROPERTY = "C09"
LEVEL = "exploration"
RULE = (
    "random programs with linear equalities under given and automatic factors, converters used for "
    "several programs and factors set in between; converted objective compared with objective plus "
    "factor times squared violation at every point; with the automatic factor and integer data the "
    "best infeasible score against the worst feasible one; non-trivial: a constraint; distinct by "
    "program and factor"
)
CASES = {"quick": 6760, "thorough": 81120}
REQUIRED = {
    "large": 100,
    "points": 50000,
    "auto": 300,
    "auto:feasible-and-infeasible": 100,
    "given": 300,
    "maximize": 300,
    "integer-variables": 200,
    "negative-lower": 50,
    "refused": 100,
    "recomputed": 100,
    "shared-variables": 100,
    "fixed-binary": 100,
}
ASSUMPTIONS = ["linear constraints"]


def make(rng, mon, integer_data):
    types = rng.choice([(B,), (B, I), (I,), (B, I, C)])
    style = rng.choice(["small", "pos", "sparse"] if integer_data else gen.EXACT_STYLES)
    large = rng.random() < 0.08
    ref = gen.qp(
        rng,
        n=rng.choice([11, 14, 20]) if large else rng.choice([1, 2, 3, 4, 5, 6, 8]),
        types=types if not integer_data else rng.choice([(B,), (B, I), (I,)]),
        max_lin=rng.choice([4, 12]) if large else 4,
        max_quad=0,
        style=style,
        con_style=rng.choice(["small", "pos", "sparse"] if integer_data else gen.COEF_STYLES),
        senses=("==",),
        max_points=None if large else 400,
    )
    for c in ref.lcons:
        if rng.random() < 0.2:
            c.rhs = F(0)
    gen.fix(rng, mon, ref)
    return ref


def points(rng, ref):
    if all(v.type != C for v in ref.vars):
        if ref.n > 10:
            return np.array([[float(a) for a in gen.some_point(rng, ref)] for _ in range(80)])
        return ref.points()
    return np.array([[float(a) for a in gen.any_point(rng, ref)] for _ in range(60)])


def check(rng, mon, conv, penalty, ref):
    text = "penalty {} {}".format(penalty, ref)
    mon.note(text)
    if ref.n > 10:
        mon.event("large")
    qp = build(ref, rng)
    res = conv.convert(qp)
    got = read(res)
    used = conv.penalty
    mon.check(used is not None, "penalty-not-reported", text)
    mon.equal(got.name, ref.name, "name", text)
    if penalty == 0:
        mon.event("penalty:zero")
    if penalty is not None:
        mon.event("given")
        mon.equal(float(used), float(penalty), "penalty-changed", text)
    else:
        mon.event("auto")
    mon.equal([v.key() for v in got.vars], [v.key() for v in ref.vars], "variables", text)
    mon.equal(got.sense, ref.sense, "sense", text)
    mon.check(not got.cons, "constraints-left", text)
    if ref.sense == -1:
        mon.event("maximize")
    if any(v.type == I for v in ref.vars):
        mon.event("integer-variables")
        if any(v.lb < 0 for v in ref.vars if v.type == I):
            mon.event("negative-lower")
    if len(ref.lcons) > 1:
        mon.event("shared-variables")
    pts = points(rng, ref)
    mon.event("points", len(pts))
    viol = np.zeros(len(pts))
    for c in ref.lcons:
        viol += evaluate_many(-c.rhs, c.lin, {}, pts) ** 2
    want = ref.values(pts) + ref.sense * float(used) * viol
    have = got.values(pts)
    # rounding: relative to the largest terms that cancel
    scale = np.zeros(len(pts))
    for c in ref.lcons:
        scale += evaluate_many(abs(c.rhs), {i: abs(v) for i, v in c.lin.items()}, {}, np.abs(pts)) ** 2
    scale = 1e-9 * (1 + np.abs(ref.values(pts))) + 1e-13 * float(abs(used)) * scale
    bad = np.nonzero(np.abs(have - want) > scale)[0]
    mon.check(
        len(bad) == 0,
        "objective",
        lambda: "{} used {} at {}: {} instead of {}".format(
            text, used, pts[bad[0]], have[bad[0]], want[bad[0]]
        ),
    )
    x = pts[rng.randrange(len(pts))]
    back = conv.interpret(x if rng.random() < 0.5 else list(x))
    mon.equal([float(a) for a in back], [float(a) for a in x], "reading", text)
    wrong = list(x) + [0.0] if rng.random() < 0.5 else list(x)[:-1]
    mon.raises(QiskitOptimizationError, lambda: conv.interpret(wrong), "wrong-length", text)
    integer_data = all(
        v.denominator == 1
        for c in ref.lcons
        for v in list(c.lin.values()) + [c.rhs]
    )
    discrete = all(v.type != C for v in ref.vars)
    if penalty is None and integer_data and discrete and ref.lcons:
        feas = viol == 0
        if feas.any() and (~feas).any():
            mon.event("auto:feasible-and-infeasible")
            worst = (ref.sense * have[feas]).max()
            best = (ref.sense * have[~feas]).min()
            mon.check(
                best > worst,
                "auto-too-small",
                lambda: "{} used {}: infeasible scores {}, feasible {}".format(
                    text, used, best, worst
                ),
            )
    if ref.lcons:
        mon.seen((penalty, ref.key()))
    return used


def check_refused(rng, mon):
    ref = make(rng, mon, True)
    if not ref.lcons:
        return
    rng.choice(ref.lcons).sense = rng.choice(["<=", ">="])
    qp = build(ref, rng)
    pen = rng.choice([None, 10])
    mon.event("refused")
    mon.raises(
        QiskitOptimizationError,
        lambda: LinearEqualityToPenalty(pen).convert(qp),
        "inequality-not-refused",
        repr(ref),
    )


def run_case(rng, mon, k, tier):
    def draw():
        if rng.random() < 0.6:
            return None
        return num(F(rng.choice([1, 2, 10, 1000, 7, 0])) / rng.choice([1, 2, 4, 1024]))

    penalty = draw()
    conv = LinearEqualityToPenalty(penalty) if penalty is not None or k % 2 else LinearEqualityToPenalty()
    for r in range(rng.choice([1, 1, 2, 3, 4])):
        if r and rng.random() < 0.4:
            penalty = draw()
            conv.penalty = penalty
        elif r and penalty is None:
            mon.event("recomputed")
        ref = make(rng, mon, rng.random() < 0.7)
        check(rng, mon, conv, penalty, ref)
    if rng.random() < 0.3:
        check_refused(rng, mon)
    if k < 3:
        mon.sample({"penalty": str(penalty), "program": repr(ref)[:300]})
