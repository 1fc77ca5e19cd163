"""C10: conversion to QUBO preserves the optima of every compatible problem."""
from fractions import Fraction as F

import numpy as np
from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.converters import (
    InequalityToEquality,
    IntegerToBinary,
    LinearEqualityToPenalty,
    QuadraticProgramToQubo,
)

from vp import gen
from vp.ref import B, C, I, RefCon, RefVar, build, num, read

PROPERTY = "C10"
LEVEL = "exploration"
RULE = (
    "random problems with bounded integer and binary variables and linear constraints converted in "
    "one step and by chained converters, fresh and used, with automatic and sufficient custom "
    "penalties; all optima of the QUBO, found by enumeration, read back and compared with all "
    "optima of the original; incompatible problems attempted; non-trivial: a constraint and a "
    "feasible point; distinct by problem"
)
CASES = {"quick": 5400, "thorough": 64800}
REQUIRED = {
    "large": 150,
    "large:feasible": 300,
    "large:infeasible": 300,
    "penalty:reset": 100,
    "penalty:changed": 30,
    "feasible-problem": 400,
    "infeasible-problem": 20,
    "optima-read": 800,
    "several-optima": 100,
    "penalty:auto": 200,
    "penalty:given": 100,
    "chained": 100,
    "inequality": 300,
    "integer-variables": 200,
    "maximize": 200,
    "refused": 100,
    "fixed-binary": 100,
}
ASSUMPTIONS = ["QUBOs of up to 14 binary variables"]


def bound(ref):
    """1 + an upper bound on the range of the objective."""
    total = F(1)
    for i, v in ref.lin.items():
        total += abs(v) * (F(ref.vars[i].ub) - F(ref.vars[i].lb))
    for (i, j), v in ref.quad.items():
        a, b = ref.vars[i], ref.vars[j]
        prods = [F(p) * F(q) for p in (a.lb, a.ub) for q in (b.lb, b.ub)]
        if i == j:
            prods.append(F(0))
        total += abs(v) * (max(prods) - min(prods))
    return total


def problem(rng, max_bits=13, types=None, mon=None):
    """A compatible problem with a small QUBO."""
    while True:
        ref = gen.qp(
            rng,
            n=rng.choice([1, 2, 3, 4, 5, 6, 7]),
            types=types or rng.choice([(B,), (B,), (B, I), (I,)]),
            max_lin=rng.choice([0, 1, 2, 3]),
            max_quad=0,
            width=rng.choice([2, 4, 6]),
            style=rng.choice(gen.EXACT_STYLES),
            con_style=rng.choice(["small", "sparse", "pos"]),
            max_points=400,
            feasible_bias=0.9,
        )
        for c in ref.lcons:
            if c.sense != "==" and rng.random() < 0.1:
                c.rhs += F(rng.randint(-3, 3), 4)
        if mon is not None:
            gen.fix(rng, mon, ref)
        bits = 0
        for v in ref.vars:
            bits += max(1, int(v.ub - v.lb).bit_length())
        for c in ref.lcons:
            if c.sense == "==":
                continue
            low = sum(min(w * F(ref.vars[i].lb), w * F(ref.vars[i].ub)) for i, w in c.lin.items())
            upp = sum(max(w * F(ref.vars[i].lb), w * F(ref.vars[i].ub)) for i, w in c.lin.items())
            room = c.rhs - low if c.sense == "<=" else upp - c.rhs
            if room > 0:
                bits += int(room).bit_length()
        if bits <= max_bits:
            return ref


def all_bits(n):
    return ((np.arange(2 ** n)[:, None] >> np.arange(n)) & 1).astype(float)


def check(rng, mon, convs, ref, text):
    qp = build(ref, rng)
    for conv in convs:
        qp = conv.convert(qp)
    qubo = read(qp)
    mon.check(all(v.type == B for v in qubo.vars), "not-binary", text)
    mon.check(not qubo.cons, "constraints-left", text)
    mon.equal(qubo.sense, ref.sense, "sense", text)
    if any(c.sense != "==" for c in ref.lcons):
        mon.event("inequality")
    if any(v.type == I for v in ref.vars):
        mon.event("integer-variables")
    if ref.sense == -1:
        mon.event("maximize")
    best, opt = ref.optimum()
    if best is None:
        mon.event("infeasible-problem")
        return
    mon.event("feasible-problem")
    if qubo.n > 14:
        mon.event("too-large")
        return
    pts = all_bits(qubo.n)
    vals = qubo.sense * qubo.values(pts)
    low = vals.min()
    arg = pts[vals <= low + 1e-7]
    mon.close(qubo.sense * low, best, "optimal-value", text, 1e-7)
    readings = set()
    for y in arg[:300]:
        x = y if rng.random() < 0.5 else list(y)
        for conv in convs[::-1]:
            x = conv.interpret(x)
        mon.equal(len(x), ref.n, "reading-length", text)
        readings.add(tuple(round(float(a), 9) for a in x))
        mon.event("optima-read")
    want = {tuple(float(a) for a in x) for x in opt}
    if len(want) > 1:
        mon.event("several-optima")
    mon.check(
        readings <= want,
        "optimum-not-optimal",
        lambda: "{} reads {} outside {}".format(text, sorted(readings - want)[:4], sorted(want)[:4]),
    )
    if len(arg) <= 300:
        mon.check(
            want <= readings,
            "optimum-lost",
            lambda: "{} misses {}".format(text, sorted(want - readings)[:4]),
        )
    if ref.lcons:
        mon.seen(ref.key())


def check_large(rng, mon):
    """Many variables: the best completion of sampled points, by enumeration of the new bits."""
    n = rng.choice([10, 12, 15, 20])
    ref = gen.qp(
        rng, n=n, types=(B,), max_lin=0, max_quad=0, style=rng.choice(["small", "pos", "dyadic"])
    )
    anchor = [F(rng.randint(0, 1)) for _ in range(n)]
    room = 0
    for k in range(rng.randint(1, 12)):
        lin = {i: F(rng.choice([1, 1, 1, -1, 2])) for i in rng.sample(range(n), rng.randint(1, 3))}
        at = sum(v * anchor[i] for i, v in lin.items())
        sense = "==" if room >= 6 else rng.choice(["==", "==", "<=", ">="])
        if sense == "<=":
            at += rng.randint(0, 1)
            room += int(at - sum(min(v, 0) for v in lin.values())).bit_length()
        elif sense == ">=":
            at -= rng.randint(0, 1)
            room += int(sum(max(v, 0) for v in lin.values()) - at).bit_length()
        ref.lcons.append(RefCon("c{}".format(k), lin, None, sense, F(at)))
    text = "large {}".format(ref)
    mon.note(text)
    conv = QuadraticProgramToQubo()
    qp = build(ref, rng)
    got = conv.convert(qp)
    qubo = read(got)
    mon.check(all(v.type == B for v in qubo.vars) and not qubo.cons, "not-a-qubo", text)
    names = {v.name: k for k, v in enumerate(qubo.vars)}
    place = [names[v.name] for v in ref.vars]
    extra = [k for k in range(qubo.n) if k not in set(place)]
    if len(extra) > 11:
        mon.event("too-large")
        return
    mon.event("large")
    codes = all_bits(len(extra))
    pts = [anchor]
    for _ in range(12):
        x = list(anchor) if rng.random() < 0.7 else [rng.randint(0, 1) for _ in range(n)]
        for i in rng.sample(range(n), rng.choice([1, 2, 3])):
            x[i] = 1 - x[i]
        pts.append(x)
    worst, best = None, None
    for x in pts:
        rows = np.zeros((len(codes), qubo.n))
        rows[:, place] = [float(a) for a in x]
        rows[:, extra] = codes
        vals = qubo.sense * qubo.values(rows)
        low = float(vals.min())
        want = float(ref.sense * ref.objective([F(a) for a in x]))
        if ref.feasible([F(a) for a in x]):
            mon.event("large:feasible")
            mon.close(low, want, "completed-value", "{} {}".format(x, text), 1e-7)
            back = conv.interpret(rows[int(vals.argmin())])
            mon.equal([float(a) for a in back], [float(a) for a in x], "completed-reading", text)
            worst = low if worst is None else max(worst, low)
        else:
            mon.event("large:infeasible")
            best = low if best is None else min(best, low)
    if best is not None:
        mon.check(
            worst < best,
            "infeasible-not-worse",
            lambda: "{} against {} {}".format(worst, best, text),
        )
    mon.seen(ref.key())


def check_refused(rng, mon):
    ref = problem(rng)
    what = rng.choice(["continuous", "quadratic", "fractional"])
    if what == "continuous":
        i = rng.randrange(ref.n)
        ref.vars[i] = RefVar(ref.vars[i].name, C, ref.vars[i].lb, ref.vars[i].ub)
    elif what == "quadratic":
        ref.qcons.append(gen.constraint(rng, ref, "q", True, "small"))
    else:
        con = gen.constraint(rng, ref, "frac", False, "small")
        i = rng.choice(sorted(con.lin))
        con.lin[i] += F(rng.choice([1, 3]), rng.choice([2, 4]))
        con.lin[i] = con.lin[i] if con.lin[i].denominator != 1 else F(1, 2)
        ref.lcons.insert(rng.randint(0, len(ref.lcons)), con)
    qp = build(ref, rng)
    conv = QuadraticProgramToQubo()
    mon.event("refused")
    mon.check(not conv.is_compatible(qp), "announced-compatible:" + what, repr(ref))
    mon.check(len(conv.get_compatibility_msg(qp)) > 0, "no-message:" + what, repr(ref))
    mon.raises(QiskitOptimizationError, lambda: conv.convert(qp), "not-refused:" + what, repr(ref))


def run_case(rng, mon, k, tier):
    first = problem(rng, mon=mon)
    given = rng.random() < 0.35
    penalty = None
    if given:
        mon.event("penalty:given")
        penalty = num(bound(first) + F(rng.choice([0, 0, 5, 100])))
    else:
        mon.event("penalty:auto")
    chained = rng.random() < 0.35
    if chained:
        mon.event("chained")
        convs = [
            InequalityToEquality("integer" if rng.random() < 0.7 else "auto"),
            IntegerToBinary(),
            LinearEqualityToPenalty(penalty),
        ]
    else:
        convs = [QuadraticProgramToQubo(penalty)]
    if rng.random() < 0.2:
        # a converter already used on another problem with a factor too small for anything
        mon.event("penalty:reset")
        other = problem(rng, mon=mon)
        convs[-1].penalty = 0.125
        other = build(other, rng)
        for conv in convs:
            other = conv.convert(other)
        convs[-1].penalty = penalty
    rounds = rng.choice([1, 1, 2, 3])
    ref = first
    for r in range(rounds):
        text = "penalty {} chained {} round {} {}".format(penalty, chained, r, ref)
        mon.note(text)
        if not chained:
            qp = build(ref, rng)
            mon.check(convs[0].is_compatible(qp), "announced-incompatible", text)
            mon.equal(convs[0].get_compatibility_msg(qp), "", "message", text)
        check(rng, mon, convs, ref, text)
        ref = problem(rng, mon=mon)
        given = rng.random() < (0.7 if given else 0.2)
        if given:
            penalty = num(bound(ref))
            convs[-1].penalty = penalty
            mon.event("penalty:changed")
        elif penalty is not None:
            penalty = None
            convs[-1].penalty = None
            mon.event("penalty:reset")
    if rng.random() < 0.2:
        check_refused(rng, mon)
    if rng.random() < 0.1:
        check_large(rng, mon)
    if k < 3:
        mon.sample({"problem": repr(first)[:300]})
