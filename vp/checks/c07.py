"""C07: binary expansion of integer variables is exact and complete."""
from fractions import Fraction as F

import numpy as np
from qiskit_optimization.converters import IntegerToBinary

from vp import gen
from vp.ref import B, C, I, RefQP, RefVar, build, evaluate_many, read, value

PROPERTY = "C07"
LEVEL = "exploration"
RULE = (
    "random programs with integer, binary and continuous variables converted by fresh and used "
    "converters; all assignments of the expansion (or corner and random ones of large expansions) "
    "read back and compared with the original in bounds, objective and constraint residuals; the "
    "set of readings compared with the set of integer points; non-trivial: an integer variable; "
    "distinct by program"
)
CASES = {"quick": 4310, "thorough": 51720}
REQUIRED = {
    "large": 60,
    "assignments": 40000,
    "complete-domain": 300,
    "range:zero": 50,
    "range:power-of-two-minus-one": 100,
    "range:other": 100,
    "range:large": 30,
    "negative-lower": 100,
    "integer-product": 200,
    "integer-square": 100,
    "mixed-product": 100,
    "no-integer": 20,
    "reused": 200,
    "fixed-binary": 100,
}


def make(rng, mon):
    kind = rng.random()
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 5, rng.choice([8, 11, 13])])
    types = rng.choice([(I,), (I,), (I, B), (I, B, C), (B, C)] if rng.random() < 0.95 else [(B,)])
    ref = gen.qp(
        rng,
        n=n,
        types=types,
        width=rng.choice([3, 6, 9, 16]),
        style="small" if kind < 0.12 else rng.choice(gen.EXACT_STYLES),
        con_style="small" if kind < 0.12 else rng.choice(gen.EXACT_STYLES),
    )
    if kind < 0.12:
        # one wide variable
        i = rng.randrange(ref.n)
        wid = rng.choice([17, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 1023, 4095, 2 ** 20 - 1,
                          2 ** 20, 10 ** 6])
        lo = rng.choice([0, 1, -wid, -(wid // 2), -5, 1000])
        ref.vars[i] = RefVar(ref.vars[i].name, I, lo, lo + wid)
    if rng.random() < 0.15:
        # names that the expansion of another variable also starts with
        names = ["x", "x1", "x10", "x_1", "x_", "x11", "xx", "x@"][: ref.n]
        if len(names) == ref.n:
            names = [nm.replace("@", "a") for nm in names]
            rng.shuffle(names)
            for v, nm in zip(ref.vars, names):
                v.name = nm
    gen.fix(rng, mon, ref)
    return ref


def residuals(ref, pts):
    return [
        (c.name, c.sense, evaluate_many(-c.rhs, c.lin, c.quad or {}, pts)) for c in ref.cons
    ]


def check(rng, mon, conv, ref):
    qp = build(ref, rng)
    res = conv.convert(qp)
    got = read(res)
    text = repr(ref)
    if ref.n > 10:
        mon.event("large")
    ints = [v for v in ref.vars if v.type == I]
    for v in ints:
        wid = int(v.ub - v.lb)
        if wid == 0:
            mon.event("range:zero")
        elif wid >= 17:
            mon.event("range:large")
        elif wid & (wid + 1) == 0:
            mon.event("range:power-of-two-minus-one")
        else:
            mon.event("range:other")
        if v.lb < 0:
            mon.event("negative-lower")
    for quad in [ref.quad] + [c.quad for c in ref.qcons]:
        for i, j in quad:
            kinds = (ref.vars[i].type, ref.vars[j].type)
            if kinds == (I, I):
                mon.event("integer-square" if i == j else "integer-product")
            elif I in kinds:
                mon.event("mixed-product")
    if not ints:
        mon.event("no-integer")
    mon.equal(got.name, ref.name, "name", text)
    mon.check(all(v.type in (B, C) for v in got.vars), "integer-left", text)
    # a fixed binary variable may stay as it is or be encoded
    here = {v.name for v in got.vars}
    kept = [v for v in ref.vars if v.type != I and (v.name in here or v.ub != v.lb)]
    kept_names = {v.name for v in kept}
    kept = [v.key() for v in kept]
    encoded = [v for v in ref.vars if v.name not in kept_names]
    mon.equal([v.key() for v in got.vars if v.name in kept_names], kept, "kept-variables", text)
    mon.check(
        all(v.type == B and (v.lb, v.ub) == (0, 1) for v in got.vars if v.name not in kept_names),
        "expansion-not-binary",
        text,
    )
    mon.equal(got.sense, ref.sense, "sense", text)
    mon.equal(
        [(c.name, c.sense) for c in got.lcons], [(c.name, c.sense) for c in ref.lcons], "lcons", text
    )
    mon.equal(
        [(c.name, c.sense) for c in got.qcons], [(c.name, c.sense) for c in ref.qcons], "qcons", text
    )

    # assignments of the expansion
    free = [k for k, v in enumerate(got.vars) if v.name not in kept_names]
    other = [k for k, v in enumerate(got.vars) if v.name in kept_names]
    full = len(free) <= 10
    if full:
        codes = range(2 ** len(free))
    else:
        codes = [0, 2 ** len(free) - 1] + [rng.getrandbits(len(free)) for _ in range(60)]
        codes += [1 << b for b in range(len(free))]
    rows = []
    for code in codes:
        row = [0.0] * got.n
        for b, k in enumerate(free):
            row[k] = float((code >> b) & 1)
        for k in other:
            v = got.vars[k]
            row[k] = (
                float(rng.randint(int(v.lb), int(v.ub)))
                if v.type == B
                else float(F(v.lb) + (F(v.ub) - F(v.lb)) * F(rng.randint(0, 4), 4))
            )
        rows.append(row)
    points = []
    for t, row in enumerate(rows):
        arg = np.array(row) if t % 2 else list(row)
        if t % 5 == 3 and all(a in (0, 1) for a in row):
            arg = np.array(row, dtype=rng.choice([int, np.int8, bool, np.float32]))
        x = conv.interpret(arg)
        mon.check(len(x) == ref.n, "reading-length", text)
        points.append([float(xi) for xi in x])
    mon.event("assignments", len(rows))
    for row, x in zip(rows, points):
        for v, xi in zip(ref.vars, x):
            if v.type != C:
                mon.check(
                    v.lb <= xi <= v.ub and xi == int(xi),
                    "out-of-bounds",
                    lambda: "{} reads {} from {}".format(text, x, row),
                )
        for k in other:
            pos = [i for i, v in enumerate(ref.vars) if v.name == got.vars[k].name][0]
            mon.check(x[pos] == row[k], "kept-value", lambda: "{} reads {} from {}".format(text, x, row))
    if full:
        # every integer point is the reading of some assignment
        dom = RefQP()
        dom.vars = encoded
        if encoded:
            want = dom.domain_size()
            pos = [i for i, v in enumerate(ref.vars) if v in encoded]
            have = {tuple(x[p] for p in pos) for x in points}
            mon.event("complete-domain")
            mon.equal(len(have), want, "incomplete", text)
    # objective and constraints agree at every assignment
    big = max([abs(v.ub) + abs(v.lb) for v in ref.vars if v.type == I] + [0]) > 2000
    if big:
        for row, x in zip(rows, points):
            fr, fx = [F(a) for a in row], [F(a) for a in x]
            a, b = got.objective(fr), ref.objective(fx)
            mon.close(a, b, "objective", text, 1e-9)
            for c, d in zip(got.cons, ref.cons):
                lhs = value(-c.rhs, c.lin, c.quad or {}, fr)
                mon.close(lhs, value(-d.rhs, d.lin, d.quad or {}, fx), "constraint", text, 1e-9)
    else:
        arr, pts = np.array(rows), np.array(points)
        a, b = got.values(arr), ref.values(pts)
        bad = np.nonzero(np.abs(a - b) > 1e-9 * (1 + np.abs(b)))[0]
        mon.check(
            len(bad) == 0,
            "objective",
            lambda: "{} at {} -> {}: {} instead of {}".format(
                text, rows[bad[0]], points[bad[0]], a[bad[0]], b[bad[0]]
            ),
        )
        for (name, _, g), (_, _, w) in zip(residuals(got, arr), residuals(ref, pts)):
            bad = np.nonzero(np.abs(g - w) > 1e-9 * (1 + np.abs(w)))[0]
            mon.check(
                len(bad) == 0,
                "constraint",
                lambda: "{} {} at {}: {} not {}".format(name, text, rows[bad[0]], g[bad[0]], w[bad[0]]),
            )
    if ints:
        mon.seen(ref.key())


def run_case(rng, mon, k, tier):
    conv = IntegerToBinary()
    for r in range(rng.choice([1, 1, 2, 3])):
        ref = make(rng, mon)
        mon.note("round", r, ref)
        if r:
            mon.event("reused")
        check(rng, mon, conv, ref)
    if k < 3:
        mon.sample({"program": repr(ref)[:300]})
