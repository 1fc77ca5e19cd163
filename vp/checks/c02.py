"""C02: expressions have the value and gradient of the polynomial entered."""
from fractions import Fraction as F

import numpy as np
from qiskit_optimization import QuadraticProgram

from vp import gen
from vp.ref import B, C, I, RefQP, add_var, clean, lin_arg, num, quad_arg, show, tri, value

PROPERTY = "C02"
LEVEL = "exploration"
RULE = (
    "random polynomials over 1-14 variables entered in all coefficient formats as objective, "
    "linear and quadratic constraint, read back in all formats and evaluated at random points in "
    "all point formats, before and after random coefficient changes; non-trivial: at least two "
    "non-zero coefficients; distinct by coefficients"
)
CASES = {"quick": 2500, "thorough": 40000}
REQUIRED = {
    "value:objective": 2000,
    "value:linear": 1000,
    "value:quadratic": 1000,
    "gradient": 2000,
    "format:roundtrip": 2000,
    "update:inplace": 500,
    "update:replace": 500,
    "point:partial-dict": 300,
    "point:other-type": 300,
}


def point_arg(rng, mon, x, names):
    """(argument, exact point it denotes)"""
    style = rng.randrange(8)
    if style == 0:
        return [num(v, rng) for v in x], x
    if style == 1:
        return np.array([float(v) for v in x]), x
    if style == 2:
        return {n: num(v, rng) for n, v in zip(names, x)}, x
    if style == 3:
        items = list(enumerate(x))
        rng.shuffle(items)
        return {i: num(v, rng) for i, v in items}, x
    if style == 4:
        keep = [i for i in range(len(x)) if rng.random() < 0.6]
        mon.event("point:partial-dict")
        part = [v if i in keep else F(0) for i, v in enumerate(x)]
        return {(names[i] if rng.random() < 0.5 else i): num(x[i], rng) for i in keep}, part
    if style == 5 and all(v.denominator == 1 for v in x):
        kinds = [int, np.int32, np.int64, np.float32]
        if all(abs(v) < 100 for v in x):
            kinds += [np.int8, np.int16]
        if all(v in (0, 1) for v in x):
            kinds += [bool, np.uint8]
        mon.event("point:other-type")
        return np.array([int(v) for v in x], dtype=rng.choice(kinds)), x
    if style == 6 and all(v.denominator == 1 for v in x):
        return [int(v) for v in x], x
    return np.array([float(v) for v in x]), x


def gradient(lin, quad, x):
    g = [F(0)] * len(x)
    for i, v in lin.items():
        g[i] += v
    for (i, j), v in quad.items():
        g[i] += v * x[j]
        g[j] += v * x[i]
    return g


def check_lin(mon, rng, expr, lin, names, where):
    n = len(names)
    dense = [float(lin.get(i, 0)) for i in range(n)]
    mon.check(np.array_equal(np.asarray(expr.to_array()), dense), "lin-array", lambda: (where, expr.to_array(), dense))
    mon.check(clean(expr.to_dict()) == lin, "lin-dict", lambda: (where, expr.to_dict(), show(lin)))
    mon.check(
        clean(expr.to_dict(use_name=True)) == {names[i]: v for i, v in lin.items()},
        "lin-dict-name",
        lambda: (where, expr.to_dict(use_name=True)),
    )
    mon.check(expr.coefficients.shape == (1, n), "lin-shape", where)
    mon.check(np.array_equal(expr.coefficients.toarray()[0], dense), "lin-coefficients", where)
    for i in range(n):
        mon.equal(float(expr[i]), dense[i], "lin-item", where)
        mon.equal(float(expr[names[i]]), dense[i], "lin-item-name", where)


def check_quad(mon, rng, expr, quad, names, where):
    n = len(names)
    upper = np.zeros((n, n))
    sym = np.zeros((n, n))
    for (i, j), v in quad.items():
        upper[i, j] = float(v)
        if i == j:
            sym[i, i] = float(v)
        else:
            sym[i, j] = sym[j, i] = float(v) / 2
    mon.check(np.array_equal(expr.to_array(), upper), "quad-array", lambda: (where, expr.to_array(), upper))
    mon.check(np.array_equal(expr.to_array(symmetric=True), sym), "quad-array-sym", where)
    mon.check(np.array_equal(expr.coefficients.toarray(), upper), "quad-coefficients", where)
    mon.check(
        {k: float(v) for k, v in expr.to_dict().items() if v} == show(quad), "quad-dict", where
    )
    want_sym = {(i, j): sym[i, j] for i in range(n) for j in range(n) if sym[i, j]}
    got = {k: float(v) for k, v in expr.to_dict(symmetric=True).items() if v}
    mon.check(got == want_sym, "quad-dict-sym", lambda: (where, got, want_sym))
    got = {k: float(v) for k, v in expr.to_dict(use_name=True).items() if v}
    mon.check(
        got == {(names[i], names[j]): float(v) for (i, j), v in quad.items()},
        "quad-dict-name",
        lambda: (where, got),
    )
    got = {k: float(v) for k, v in expr.to_dict(symmetric=True, use_name=True).items() if v}
    mon.check(
        got == {(names[i], names[j]): v for (i, j), v in want_sym.items()},
        "quad-dict-sym-name",
        lambda: (where, got),
    )
    for _ in range(4):
        i, j = rng.randrange(n), rng.randrange(n)
        want = float(quad.get((min(i, j), max(i, j)), 0))
        mon.equal(float(expr[i, j]), want, "quad-item", where)
        mon.equal(float(expr[names[i], names[j]]), want, "quad-item-name", where)
        mon.equal(float(expr[names[i], j]), want, "quad-item-mixed", where)


def check_all(mon, rng, qp, names, parts, where):
    """parts: [(element, kind, const, lin, quad)]"""
    n = len(names)
    for element, kind, const, lin, quad in parts:
        mon.event("format:roundtrip")
        check_lin(mon, rng, element.linear, lin, names, where + " " + kind)
        if kind != "linear":
            check_quad(mon, rng, element.quadratic, quad, names, where + " " + kind)
        for _ in range(3):
            style = rng.choice(["small", "dyadic", "sparse", "bits", "big"])
            if style == "bits":
                x = [F(rng.randint(0, 1)) for _ in range(n)]
            else:
                x = [gen.coef(rng, style) for _ in range(n)]
            arg, x = point_arg(rng, mon, x, names)
            keep = repr(arg)
            want = value(const, lin, quad, x)
            mon.event("value:" + kind)
            mon.close(element.evaluate(arg), want, "value-" + kind, where, tol=1e-9)
            mon.close(element.linear.evaluate(arg), value(0, lin, {}, x), "lin-value", where, tol=1e-9)
            if kind != "linear":
                mon.close(
                    element.quadratic.evaluate(arg), value(0, {}, quad, x), "quad-value", where, tol=1e-9
                )
                grad = gradient({}, quad, x)
                got = np.asarray(element.quadratic.evaluate_gradient(arg)).ravel()
                mon.check(
                    len(got) == n and np.allclose(got, [float(g) for g in grad], rtol=1e-9, atol=1e-9),
                    "quad-gradient",
                    lambda: (where, got, show(quad), x),
                )
            got = np.asarray(element.linear.evaluate_gradient(arg)).ravel()
            mon.check(
                np.array_equal(got, [float(lin.get(i, 0)) for i in range(n)]), "lin-gradient", where
            )
            if kind == "objective":
                grad = gradient(lin, quad, x)
                got = np.asarray(element.evaluate_gradient(arg)).ravel()
                mon.event("gradient")
                mon.check(
                    len(got) == n and np.allclose(got, [float(g) for g in grad], rtol=1e-9, atol=1e-9),
                    "gradient",
                    lambda: (where, got, show(lin), show(quad), x),
                )
            mon.check(repr(arg) == keep, "point-modified", where)


def run_case(rng, mon, k, tier):
    n = rng.choice([1, 2, 3, 3, 4, 5, 6, 8, 11, rng.choice([14, 14, 40])])
    ref = RefQP()
    ref.vars = gen.variables(rng, n, [B, I, C])
    names = [v.name for v in ref.vars]
    qp = QuadraticProgram("e")
    for v in ref.vars:
        add_var(qp, v)

    def poly():
        style = rng.choice(gen.EXACT_STYLES)
        return gen.coef(rng, style), gen.lin(rng, n, style), gen.quad(rng, n, style)

    const, lin, quad = poly()
    _, lin1, _ = poly()
    _, lin2, quad2 = poly()
    sense = rng.choice([qp.minimize, qp.maximize])
    sense(num(const, rng), lin_arg(rng, lin, names), quad_arg(rng, quad, names))
    con1 = qp.linear_constraint(lin_arg(rng, lin1, names), "<=", 3, "l")
    con2 = qp.quadratic_constraint(
        lin_arg(rng, lin2, names), quad_arg(rng, quad2, names), ">=", 3, "q"
    )
    where = "polynomials {} {} {} / {} / {} {}".format(
        float(const), show(lin), show(quad), show(lin1), show(lin2), show(quad2)
    )
    mon.note(where)
    check_all(
        mon,
        rng,
        qp,
        names,
        [
            (qp.objective, "objective", const, lin, quad),
            (con1, "linear", 0, lin1, {}),
            (con2, "quadratic", 0, lin2, quad2),
        ],
        where,
    )
    # changes, in place and by replacement
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.6:
            mon.event("update:inplace")
            for element, l, q in ((qp.objective, lin, quad), (con1, lin1, None), (con2, lin2, quad2)):
                i, j = rng.randrange(n), rng.randrange(n)
                v = gen.coef(rng, "dyadic") if rng.random() < 0.8 else F(0)
                element.linear[names[i] if rng.random() < 0.5 else i] = num(v, rng)
                l[i] = v
                if q is not None:
                    v = gen.coef(rng, "dyadic") if rng.random() < 0.8 else F(0)
                    a = names[i] if rng.random() < 0.5 else i
                    b = names[j] if rng.random() < 0.5 else j
                    element.quadratic[a, b] = num(v, rng)
                    q[min(i, j), max(i, j)] = v
            lin, lin1, lin2 = clean(lin), clean(lin1), clean(lin2)
            quad, quad2 = tri(quad), tri(quad2)
        else:
            mon.event("update:replace")
            how = rng.randrange(5)
            nconst, nlin, nquad = poly()
            if how == 0:
                qp.objective.linear = lin_arg(rng, nlin, names)
                lin = nlin
            elif how == 1:
                qp.objective.quadratic = quad_arg(rng, nquad, names)
                quad = nquad
                qp.objective.constant = num(nconst)
                const = nconst
            elif how == 2:
                con1.linear = lin_arg(rng, nlin, names)
                lin1 = nlin
            elif how == 3:
                con2.linear = lin_arg(rng, nlin, names)
                con2.quadratic = quad_arg(rng, nquad, names)
                lin2, quad2 = nlin, nquad
            else:
                qp.objective.linear.coefficients = lin_arg(rng, nlin, names)
                qp.objective.quadratic.coefficients = quad_arg(rng, nquad, names)
                lin, quad = nlin, nquad
    check_all(
        mon,
        rng,
        qp,
        names,
        [
            (qp.objective, "objective", const, lin, quad),
            (con1, "linear", 0, lin1, {}),
            (con2, "quadratic", 0, lin2, quad2),
        ],
        "after changes",
    )
    if len(lin) + len(quad) >= 2:
        mon.seen((n, const, sorted(lin.items()), sorted(quad.items())))
    if k < 3:
        mon.sample({"n": n, "linear": show(lin), "quadratic": str(show(quad))[:200]})
