"""C08: slack variables turn inequalities into equalities without changing solutions."""
from fractions import Fraction as F

import numpy as np
from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.converters import InequalityToEquality

from vp import gen
from vp.ref import B, C, I, RefCon, build, clean, read, tri, value

PROPERTY = "C08"
LEVEL = "exploration"
RULE = (
    "random programs with linear and quadratic constraints of all senses, in the three modes, by "
    "fresh and used converters; at every point of the domain (sampled points with continuous "
    "variables): completable by slack values in the converted program if and only if feasible in "
    "the original, same objective, read back unchanged; non-trivial: an inequality; distinct by "
    "program and mode"
)
CASES = {"quick": 5080, "thorough": 60960}
REQUIRED = {
    "large": 100,
    "points": 30000,
    "points:feasible": 3000,
    "points:infeasible": 3000,
    "mode:auto": 200,
    "mode:integer": 200,
    "mode:continuous": 200,
    "slack:integer": 200,
    "slack:continuous": 200,
    "inequality:linear": 300,
    "inequality:quadratic": 300,
    "no-slack": 30,
    "refused": 50,
    "fractional-rhs": 50,
    "fixed-binary": 100,
}
ASSUMPTIONS = ["finite bounds", "integer mode over discrete variables"]


def integral(con):
    return all(v.denominator == 1 for v in con.lin.values()) and all(
        v.denominator == 1 for v in (con.quad or {}).values()
    )


def has_continuous(ref, con):
    used = set(con.lin) | {i for ij in (con.quad or {}) for i in ij}
    return any(ref.vars[i].type == C for i in used)


def exact(ref):
    """Whether every sum over the bounds of a constraint is exact in floating point."""
    for c in ref.cons:
        terms = [abs(c.rhs)]
        ends = [[abs(F(v.lb)), abs(F(v.ub))] for v in ref.vars]
        for i, v in c.lin.items():
            terms += [abs(v) * a for a in ends[i]]
        for (i, j), v in (c.quad or {}).items():
            terms += [abs(v) * a * b for a in ends[i] for b in ends[j]]
        fine = max(t.denominator for t in terms)
        if sum(terms) * fine >= 2 ** 53:
            return False
    return True


def make(rng, mon, mode):
    while True:
        ref = draw(rng, mon, mode)
        if exact(ref):
            return ref
        mon.event("rounding")


def draw(rng, mon, mode):
    if mode == "integer":
        types = rng.choice([(B,), (B, I), (I,)])
    else:
        types = rng.choice([(B,), (B, I), (I,), (B, I, C), (C,)])
    large = rng.random() < 0.08
    ref = gen.qp(
        rng,
        n=rng.choice([8, 11, 14]) if large else rng.choice([1, 2, 3, 4]),
        types=types,
        max_lin=rng.choice([3, 12]) if large else 3,
        max_quad=2,
        max_points=None if large else 300,
        con_style=rng.choice(["small", "small", "sparse", "pos", "dyadic", "big", "micro", "wide", "near"]),
        senses=rng.choice([("<=", ">=", "=="), ("<=", ">="), (">=",), ("<=",)]),
    )
    for c in ref.cons:
        if c.sense != "==" and rng.random() < 0.15:
            # fractional right-hand side
            c.rhs += F(rng.randint(-7, 7), 8)
        if rng.random() < 0.08 and not large:
            # tight or out of reach for every point
            pts = ref.points() if all(v.type != C for v in ref.vars) else None
            if pts is not None:
                vals = [value(0, c.lin, c.quad or {}, [F(a) for a in p]) for p in pts[:300]]
                c.rhs = rng.choice([min(vals), max(vals), min(vals) - 1, max(vals) + 1])
    if ref.lcons and ref.qcons and rng.random() < 0.2:
        ref.qcons[0].name = ref.lcons[0].name
    gen.fix(rng, mon, ref)
    return ref


def sample_points(rng, ref):
    if all(v.type != C for v in ref.vars) and ref.n <= 6:
        return [[F(a) for a in p] for p in ref.points()]
    res = []
    for _ in range(60):
        res.append(gen.some_point(rng, ref))
    return res


def check(rng, mon, conv, ref, mode):
    text = "mode {} {}".format(mode, ref)
    mon.note(text)
    qp = build(ref, rng)
    ineq = [c for c in ref.cons if c.sense != "=="]
    mon.event("mode:" + mode)
    if ref.n > 6:
        mon.event("large")
    if any(c.rhs.denominator != 1 for c in ineq):
        mon.event("fractional-rhs")
    if mode == "integer" and any(not integral(c) for c in ineq):
        mon.event("refused")
        mon.raises(QiskitOptimizationError, lambda: conv.convert(qp), "not-refused", text)
        return
    res = conv.convert(qp)
    got = read(res)
    n = ref.n
    for c in ref.lcons:
        if c.sense != "==":
            mon.event("inequality:linear")
    for c in ref.qcons:
        if c.sense != "==":
            mon.event("inequality:quadratic")
    mon.equal(got.name, ref.name, "name", text)
    names = {v.name: v for v in got.vars}
    mon.equal([v.key() for v in got.vars[:n]], [v.key() for v in ref.vars], "variables", text)
    mon.check(all(c.sense == "==" for c in got.cons), "inequality-left", text)
    mon.equal([c.name for c in got.lcons], [c.name for c in ref.lcons], "lcons", text)
    mon.equal([c.name for c in got.qcons], [c.name for c in ref.qcons], "qcons", text)
    mon.equal(
        (got.sense, got.const, got.lin, got.quad), (ref.sense, ref.const, ref.lin, ref.quad),
        "objective", text,
    )
    slacks = got.vars[n:]
    for v in slacks:
        mon.check(v.lb > -1e18 and v.ub < 1e18, "slack-unbounded", text)
        mon.event("slack:" + {I: "integer", C: "continuous", B: "binary"}[v.type])
    if mode == "integer":
        mon.check(all(v.type == I for v in slacks), "slack-kind", text)
    elif mode == "continuous":
        mon.check(all(v.type == C for v in slacks), "slack-kind", text)
    if len(slacks) < len(ineq):
        mon.event("no-slack", len(ineq) - len(slacks))

    # which slack belongs to which constraint
    owner = {}
    plan = []
    for old, new in zip(ref.cons, got.cons):
        used = [i for i in new.lin if i >= n]
        mon.check(
            not any(i >= n or j >= n for i, j in (new.quad or {})), "slack-in-product", text
        )
        mon.check(len(used) <= 1 and not any(i in owner for i in used), "slack-shared", text)
        for i in used:
            owner[i] = new
            if mode == "auto":
                kind = I if integral(old) and not has_continuous(ref, old) else C
                mon.equal(got.vars[i].type, kind, "slack-kind", "{} in {}".format(old, text))
        plan.append((old, new, used[0] if used else None))
    mon.check(len(owner) == len(slacks), "slack-unused", text)

    for x in sample_points(rng, ref):
        y = list(x) + [F(0)] * len(slacks)
        ok = True
        for old, new, s in plan:
            lhs = value(0, new.lin, new.quad or {}, y)
            if s is None:
                ok = ok and lhs == new.rhs
            else:
                val = (new.rhs - lhs) / new.lin[s]
                v = got.vars[s]
                y[s] = val
                if not F(v.lb) <= val <= F(v.ub) or (v.type == I and val.denominator != 1):
                    ok = False
        feasible = ref.feasible(x)
        mon.event("points")
        mon.event("points:feasible" if feasible else "points:infeasible")
        mon.equal(ok, feasible, "feasibility", "point {} completed {} in {}".format(x, y, text))
        if ok:
            back = conv.interpret(np.array([float(a) for a in y]))
            mon.equal([float(a) for a in back], [float(a) for a in x], "reading", text)
    if ineq:
        mon.seen((mode, ref.key()))


def run_case(rng, mon, k, tier):
    conv = None
    for r in range(rng.choice([1, 1, 2, 3])):
        mode = rng.choice(["auto", "integer", "continuous"])
        if conv is None or rng.random() < 0.3:
            conv = InequalityToEquality() if mode == "auto" and k % 2 else InequalityToEquality(mode)
        else:
            conv.mode = mode
        mon.equal(conv.mode, mode, "mode")
        ref = make(rng, mon, mode)
        check(rng, mon, conv, ref, mode)
    if k < 3:
        mon.sample({"mode": mode, "program": repr(ref)[:300]})
