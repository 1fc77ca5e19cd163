"""C03: the feasibility report names exactly what a point violates."""
from fractions import Fraction as F

import numpy as np
from qiskit_optimization import QiskitOptimizationError

from vp import gen
from vp.ref import B, C, I, RefCon, build, num, value

PROPERTY = "C03"
LEVEL = "exploration"
RULE = (
    "random programs with linear and quadratic constraints of every sense, probed at points on, "
    "just inside and just outside bounds and constraints; the report is compared with an exact "
    "(rational) reference; non-trivial: the point violates something; distinct by program, point"
)
CASES = {"quick": 3000, "thorough": 50000}
REQUIRED = {
    "point:feasible": 1000,
    "point:infeasible": 2000,
    "violated:lower": 200,
    "violated:upper": 200,
    "violated:linear": 500,
    "violated:quadratic": 500,
    "tight:<=": 300,
    "tight:>=": 300,
    "tight:==": 300,
    "wrong-length": 500,
    "undefined": 1000,
}
ASSUMPTIONS = [
    "points and coefficients are binary fractions of moderate size, so that left-hand sides are "
    "computed without rounding; tolerance questions are out of scope",
    "integrality of the values is not part of the report",
]


def undefined(rng, mon, qp, ref, anchor):
    """A point with a value that is no number, or beyond all numbers, lies within no bounds."""
    x = [float(v) for v in anchor]
    which = rng.sample(range(ref.n), rng.choice([1, 1, min(2, ref.n)]))
    value_ = rng.choice([float("nan"), float("nan"), float("inf"), -float("inf")])
    for i in which:
        x[i] = value_
    arg = x if rng.random() < 0.5 else np.array(x)
    with np.errstate(all="ignore"):
        feasible, got_v, got_c = qp.get_feasibility_info(arg)
        again = qp.is_feasible(arg)
    text = "{} at {}".format(ref, x)
    mon.event("undefined")
    mon.check(feasible is False and again is False, "undefined-feasible", text)
    mon.equal(
        [v.name for v in got_v], [ref.vars[i].name for i in sorted(which)], "undefined", text
    )
    if value_ != value_:
        names = {(c.name, hasattr(c, "quadratic")) for c in got_c}
        for c in ref.cons:
            if any(i in c.lin or any(i in ij for ij in c.quad or {}) for i in which):
                mon.check((c.name, c.quad is not None) in names, "undefined-constraint", text)


def run_case(rng, mon, k, tier):
    ref = gen.qp(
        rng,
        n=rng.choice([1, 2, 3, 4, 6, 9, rng.choice([12, 12, 30])]),
        types=rng.choice([(B, I, C), (B,), (I,), (C,), (B, I)]),
        max_lin=4,
        max_quad=3,
        style="small",
        con_style=rng.choice(["small", "dyadic", "sparse", "pos", "micro"]),
    )
    anchor = gen.some_point(rng, ref)
    # constraints exactly tight at the anchor
    for quadratic in (False, True):
        con = gen.constraint(
            rng,
            ref,
            "tight" if not quadratic else "tightq",
            quadratic,
            "small",
            anchor=anchor,
        )
        con.rhs = value(0, con.lin, con.quad or {}, anchor)
        if rng.random() < 0.7:
            (ref.qcons if quadratic else ref.lcons).append(con)
    if rng.random() < 0.3:
        # same name for a linear and a quadratic constraint
        if ref.lcons and ref.qcons:
            ref.qcons[0].name = ref.lcons[0].name
    if rng.random() < 0.2:
        ref.lcons.append(
            RefCon("none", {}, None, rng.choice(["<=", ">=", "=="]), rng.choice([-1, 0, 0, 1]))
        )
    qp = build(ref, rng)
    points = [anchor]
    for _ in range(5):
        points.append(gen.any_point(rng, ref))
    # one coordinate off by a small step
    for _ in range(4):
        x = list(anchor)
        i = rng.randrange(len(x))
        x[i] += F(rng.choice([1, -1]), rng.choice([1, 2, 8, 64]))
        points.append(x)
    for i in rng.sample(range(ref.n), min(3, ref.n)):
        x = list(anchor)
        v = ref.vars[i]
        x[i] = rng.choice([F(v.lb), F(v.ub), F(v.lb) - F(1, 8), F(v.ub) + F(1, 8), F(v.ub) + 1000])
        points.append(x)
    for x in points:
        bad_v, bad_c = ref.violated(x)
        arg = [num(v, rng) for v in x]
        if rng.random() < 0.5:
            arg = np.array([float(v) for v in x])
        feasible, got_v, got_c = qp.get_feasibility_info(arg)
        where = "{} at {}".format(ref, [float(v) for v in x])
        mon.check(feasible == (not bad_v and not bad_c), "verdict", lambda: (feasible, where))
        mon.check(
            [v.name for v in got_v] == [ref.vars[i].name for i in bad_v],
            "variables",
            lambda: ([v.name for v in got_v], bad_v, where),
        )
        mon.check(
            all(v is qp.get_variable(v.name) for v in got_v), "variable-identity", where
        )
        want = [
            qp.get_linear_constraint(c.name) if c.quad is None else qp.get_quadratic_constraint(c.name)
            for c in bad_c
        ]
        mon.check(
            len(got_c) == len(want) and {id(c) for c in got_c} == {id(c) for c in want},
            "constraints",
            lambda: ([c.name for c in got_c], bad_c, where),
        )
        mon.check(qp.is_feasible(arg) == feasible, "is-feasible", where)
        mon.event("point:feasible" if feasible else "point:infeasible")
        for i in bad_v:
            mon.event("violated:lower" if x[i] < ref.vars[i].lb else "violated:upper")
        for c in bad_c:
            mon.event("violated:linear" if c.quad is None else "violated:quadratic")
        for c in ref.cons:
            if value(0, c.lin, c.quad or {}, x) == c.rhs:
                mon.event("tight:" + c.sense)
        if not feasible:
            mon.seen((ref.key(), tuple(x)))
    undefined(rng, mon, qp, ref, anchor)
    for wrong in (anchor[:-1], anchor + [F(0)], []):
        if len(wrong) != ref.n:
            mon.event("wrong-length")
            mon.raises(
                QiskitOptimizationError,
                lambda w=wrong: qp.get_feasibility_info([float(v) for v in w]),
                "length-accepted",
            )
            mon.raises(
                QiskitOptimizationError,
                lambda w=wrong: qp.is_feasible([float(v) for v in w]),
                "length-accepted",
            )
    if k < 3:
        mon.sample({"program": repr(ref)[:300], "points": len(points)})
