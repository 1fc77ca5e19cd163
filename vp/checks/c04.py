"""C04: docplex and LP exchange preserves the program and drops nothing silently."""
import os
import shutil
import tempfile
from fractions import Fraction as F

from docplex.mp.model import Model
from qiskit_optimization import QuadraticProgram

from vp import gen
from vp.ref import (
    B,
    C,
    I,
    RefCon,
    RefQP,
    RefVar,
    build,
    clean,
    frac,
    holds,
    num,
    read,
    tri,
    value,
)

PROPERTY = "C04"
LEVEL = "exploration"
RULE = (
    "random programs exported to docplex (read back independently term by term), re-imported, and "
    "sent through LP files; random docplex models with expressions on both sides, products, squares "
    "and unnamed elements, imported into used programs and compared with the expression trees at "
    "random points; models with one unsupported element; non-trivial: at least one constraint or "
    "quadratic term; distinct by coefficients"
)
CASES = {"quick": 4140, "thorough": 49680}
REQUIRED = {
    "export": 500,
    "roundtrip": 500,
    "lp": 100,
    "import": 500,
    "import:points": 3000,
    "import:rhs-variables": 200,
    "import:quadratic-rhs": 50,
    "unsupported": 100,
    "degenerate": 300,
    "fixed-binary": 100,
}
ASSUMPTIONS = [
    "imported docplex constraints have at least one variable and no cancelling products",
    "LP names within the LP alphabet; LP comparison up to the order of variables",
]


def read_docplex(mdl):
    """Reference model of a docplex model with expressions on the left side only or both sides."""
    ref = RefQP(mdl.name)
    order = list(mdl.iter_variables())
    pos = {v: i for i, v in enumerate(order)}
    for v in order:
        typ = {"B": B, "I": I, "C": C}[v.cplex_typecode]
        ref.vars.append(RefVar(v.name, typ, v.lb, v.ub))

    def expr(e):
        lin, quad = {}, {}
        if e.is_quad_expr():
            for v, w, q in e.iter_quad_triplets():
                key = (pos[v], pos[w])
                quad[key] = quad.get(key, 0) + frac(q)
            part = e.linear_part
        else:
            part = e
        for v, q in part.iter_terms():
            lin[pos[v]] = lin.get(pos[v], F(0)) + frac(q)
        return frac(e.get_constant()), lin, quad

    ref.sense = 1 if mdl.objective_sense.is_minimize() else -1
    const, lin, quad = expr(mdl.objective_expr)
    ref.const, ref.lin, ref.quad = const, clean(lin), tri(quad)
    for con in mdl.iter_constraints():
        c1, l1, q1 = expr(con.get_left_expr())
        c2, l2, q2 = expr(con.get_right_expr())
        lin = {i: l1.get(i, F(0)) - l2.get(i, F(0)) for i in set(l1) | set(l2)}
        quad = {i: q1.get(i, F(0)) - q2.get(i, F(0)) for i in set(q1) | set(q2)}
        sense = {"LE": "<=", "GE": ">=", "EQ": "=="}[con.sense.name]
        rc = RefCon(con.name, lin, quad if con.is_quadratic() else None, sense, c2 - c1)
        (ref.lcons if rc.quad is None else ref.qcons).append(rc)
    return ref


def by_name(ref):
    """Comparable form independent of the order of variables."""
    nm = [v.name for v in ref.vars]

    def lin(d):
        return tuple(sorted((nm[i], v) for i, v in d.items()))

    def quad(d):
        return tuple(sorted((tuple(sorted((nm[i], nm[j]))), v) for (i, j), v in d.items()))

    return (
        ref.name,
        tuple(sorted(v.key() for v in ref.vars)),
        ref.sense,
        ref.const,
        lin(ref.lin),
        quad(ref.quad),
        tuple((c.name, lin(c.lin), c.sense, c.rhs) for c in ref.lcons),
        tuple((c.name, lin(c.lin), quad(c.quad), c.sense, c.rhs) for c in ref.qcons),
    )


def infinite(rng, ref):
    for v in ref.vars:
        if v.type == C and rng.random() < 0.3:
            if rng.random() < 0.5:
                v.ub = 1e20
            if rng.random() < 0.5:
                v.lb = -1e20


def used_program(rng):
    if rng.random() < 0.6:
        return QuadraticProgram("used")
    return build(gen.qp(rng), rng)


def check_export(rng, mon):
    n = rng.choice([1, 2, 3, 4, 5, 8, 12])
    ref = gen.qp(rng, n=n, style=rng.choice(gen.COEF_STYLES + ["big", "tiny"]))
    gen.fix(rng, mon, ref)
    infinite(rng, ref)
    qp = build(ref, rng)
    mon.event("export")
    mdl = qp.to_docplex()
    got = read_docplex(mdl)
    mon.equal(got.key(), ref.key(), "export", repr(ref))
    back = used_program(rng)
    back.from_docplex(mdl)
    mon.event("roundtrip")
    mon.equal(read(back).key(), ref.key(), "roundtrip", repr(ref))
    if ref.cons or ref.quad:
        mon.seen(ref.key())
    return ref


def check_degenerate(rng, mon):
    """Constraints without terms and quadratic constraints without quadratic terms."""
    ref = gen.qp(rng, n=rng.choice([1, 2, 3, 4]))
    ref.lcons, ref.qcons = ref.lcons[:1], ref.qcons[:1]
    nm = [v.name for v in ref.vars]
    qp = build(ref, rng)
    extra = []
    for k in range(rng.randint(1, 3)):
        sense = rng.choice(["<=", ">=", "=="])
        kind = rng.choice(["empty-linear", "empty-quadratic", "no-quadratic", "no-quadratic"])
        rhs = frac(rng.choice([0, 0, 0, 1, -1, 0.5, 2]))
        if kind != "no-quadratic" and rng.random() < 0.5:
            # one that always holds
            sense, rhs = rng.choice([("<=", abs(rhs)), (">=", -abs(rhs)), ("==", F(0))])
        name, lin = "degen{}".format(k), {}
        mon.event("degenerate:" + kind)
        if kind == "empty-linear":
            qp.linear_constraint(rng.choice([{}, None, [0] * len(nm)]), sense, num(rhs, rng), name)
        else:
            if kind == "no-quadratic":
                lin = {i: gen.coef(rng, "small") or F(1) for i in range(ref.n)}
            qp.quadratic_constraint(
                {nm[i]: num(v, rng) for i, v in lin.items()},
                rng.choice([{}, None, {(nm[0], nm[-1]): 0}]),
                sense,
                num(rhs, rng),
                name,
            )
        extra.append((name, lin, sense, rhs))
    mon.event("degenerate")
    back = used_program(rng)
    back.from_docplex(qp.to_docplex())
    got = read(back)
    text = "{} and {}".format(ref, extra)
    mon.equal(got.key()[2:6], ref.key()[2:6], "degenerate-objective", text)
    mon.equal([v.key() for v in got.vars], [v.key() for v in ref.vars], "degenerate-vars", text)
    have = {c.name for c in got.cons}
    for name, lin, _, _ in extra:
        if lin:
            mon.check(name in have, "degenerate-lost", lambda: text)
    for _ in range(8):
        x = gen.any_point(rng, RefPoint(ref))
        mon.equal(
            all(holds(c.sense, value(0, c.lin, c.quad or {}, x), c.rhs) for c in got.cons),
            all(holds(c.sense, value(0, c.lin, c.quad or {}, x), c.rhs) for c in ref.cons)
            and all(holds(s, value(0, lin, {}, x), rhs) for _, lin, s, rhs in extra),
            "degenerate-feasible",
            "{} at {}".format(text, x),
        )


def check_lp(rng, mon, tmp):
    n = rng.choice([1, 2, 3, 4, 6, rng.choice([12, 12, 25])])
    style = rng.choice(["small", "dyadic", "sparse", "pos"])
    ref = gen.qp(rng, n=n, style=style, con_style=style)
    gen.fix(rng, mon, ref)
    for v in ref.vars:
        if v.name[0] in "eE":
            # reads as an exponent
            v.name = "v" + v.name
    ref.name = rng.choice(["prob", "my problem", "p1", "Model_7"])
    for i in range(ref.n):
        # docplex does not write variables that nothing uses
        if i not in ref.lin:
            ref.lin[i] = F(rng.choice([1, 2, -3]))
    for c in ref.cons:
        # docplex writes nine significant digits
        c.rhs = F(round(c.rhs * 4), 4)
    for c in ref.qcons:
        # equality is outside what the solver's reader accepts
        if c.sense == "==":
            c.sense = rng.choice(["<=", ">="])
    infinite(rng, ref)
    qp = build(ref, rng)
    path = os.path.join(tmp, "m.lp")
    qp.write_to_lp_file(path)
    back = used_program(rng)
    back.read_from_lp_file(path)
    mon.event("lp")
    for part, got, want in zip(
        ["name", "variables", "sense", "constant", "linear", "quadratic", "lcons", "qcons"],
        by_name(read(back)),
        by_name(ref),
    ):
        mon.equal(got, want, "lp-" + part)
    with open(path, encoding="utf8") as file:
        text = file.read()
    mon.equal(qp.export_as_lp_string().strip(), text.strip(), "lp-string", repr(ref))


class Poly:
    """A docplex expression together with its exact meaning."""

    def __init__(self, expr, const, lin, quad):
        self.expr, self.const, self.lin, self.quad = expr, frac(const), lin, quad

    def at(self, x):
        return value(self.const, self.lin, self.quad, x)

    @property
    def size(self):
        return len(clean(self.lin)) + len(tri(self.quad))


def random_poly(rng, var, style, quadratic, n_terms):
    """A sum of terms, with repetitions, in random order."""
    n = len(var)
    expr, const, lin, quad = 0, F(0), {}, {}
    for _ in range(n_terms):
        kind = rng.random()
        c = gen.coef(rng, style) or F(1)
        if kind < 0.15:
            expr, const = expr + num(c, rng), const + c
        elif kind < 0.5 or not quadratic:
            i = rng.randrange(n)
            term = var[i] if rng.random() < 0.2 else None
            if term is not None:
                c = F(1)
                expr = expr + term
            elif rng.random() < 0.5:
                expr = expr + num(c, rng) * var[i]
            else:
                c = -c
                expr = expr - num(-c, rng) * var[i]
            lin[i] = lin.get(i, F(0)) + c
        elif kind < 0.85:
            i, j = rng.randrange(n), rng.randrange(n)
            if i == j and rng.random() < 0.5:
                expr = expr + num(c, rng) * var[i] ** 2
            else:
                expr = expr + num(c, rng) * (var[i] * var[j])
            quad[i, j] = quad.get((i, j), F(0)) + c
        else:
            # (a x + b) * (y + d)
            i, j = rng.randrange(n), rng.randrange(n)
            b, d = F(rng.randint(-3, 3)), F(rng.randint(-3, 3))
            expr = expr + (num(c) * var[i] + num(b)) * (var[j] + num(d))
            quad[i, j] = quad.get((i, j), F(0)) + c
            lin[i] = lin.get(i, F(0)) + c * d
            lin[j] = lin.get(j, F(0)) + b
            const += b * d
    return Poly(expr, const, lin, quad)


def random_model(rng, mon):
    n = rng.choice([1, 2, 3, 4, 5, 11])
    ref = RefQP()
    ref.vars = gen.variables(rng, n, [B, I, C])
    mdl = Model(rng.choice(["m", "docplex model", "a_b"]))
    unnamed = rng.random() < 0.2
    var = []
    for v in ref.vars:
        name = None if unnamed else v.name
        if v.type == B:
            if rng.random() < 0.05:
                # a fixed variable
                v.lb = v.ub = rng.randint(0, 1)
                mon.event("fixed-binary")
                var.append(mdl.var(mdl.binary_vartype, v.lb, v.ub, name))
            else:
                var.append(mdl.binary_var(name=name))
        elif v.type == I:
            var.append(mdl.integer_var(v.lb, v.ub, name=name))
        else:
            kw = {}
            if rng.random() < 0.8:
                kw["lb"] = v.lb
            else:
                v.lb = 0
                v.ub = max(v.ub, 0)
            if rng.random() < 0.8:
                kw["ub"] = v.ub
            else:
                v.ub = 1e20
            var.append(mdl.continuous_var(name=name, **kw))
    style = rng.choice(["small", "dyadic", "sparse"])
    obj = random_poly(rng, var, style, rng.random() < 0.6, rng.randint(0, 6))
    ref.sense = rng.choice([1, -1])
    if rng.random() < 0.1:
        i = rng.randrange(ref.n)
        obj = Poly(var[i], 0, {i: F(1)}, {})
    if rng.random() < 0.9:
        (mdl.minimize if ref.sense == 1 else mdl.maximize)(obj.expr)
    else:
        obj = Poly(0, 0, {}, {})
        ref.sense = 1
    cons = []
    named = rng.choice([0.0, 1.0])
    for k in range(rng.randint(0, 4)):
        quadratic = rng.random() < 0.4
        for _ in range(20):
            left = random_poly(rng, var, style, quadratic and rng.random() < 0.7, rng.randint(0, 4))
            right = random_poly(rng, var, style, quadratic and rng.random() < 0.7, rng.randint(0, 4))
            diff_l = {
                i: left.lin.get(i, F(0)) - right.lin.get(i, F(0))
                for i in set(left.lin) | set(right.lin)
            }
            q_l, q_r = tri(left.quad), tri(right.quad)
            diff_q = {i: q_l.get(i, F(0)) - q_r.get(i, F(0)) for i in set(q_l) | set(q_r)}
            any_left = isinstance(left.expr, (int, float))
            any_right = isinstance(right.expr, (int, float))
            if (left.quad or right.quad) and not tri(diff_q):
                # docplex itself mistreats relations whose products cancel, also
                # those of one side
                continue
            if (clean(diff_l) or tri(diff_q)) and not (any_left and any_right):
                break
        else:
            continue
        if right.lin:
            mon.event("import:rhs-variables")
        if q_r:
            mon.event("import:quadratic-rhs")
        sense = rng.choice(["<=", ">=", "=="])
        if sense == "<=":
            ct = left.expr <= right.expr
        elif sense == ">=":
            ct = left.expr >= right.expr
        else:
            ct = left.expr == right.expr
        name = "ct{}".format(rng.choice([k, k + 10])) if rng.random() < named else None
        if name and any(name == c[3] for c in cons):
            name = "other{}".format(k)
        mdl.add_constraint(ct, ctname=name)
        cons.append((left, sense, right, name))
    return mdl, var, ref, obj, cons, unnamed


def check_import(rng, mon):
    mdl, _, ref, obj, cons, unnamed = random_model(rng, mon)
    if mdl.number_of_constraints != len(cons):
        mon.event("import:dropped-by-docplex")
        return
    qp = used_program(rng)
    mon.event("import")
    text = "{} obj {} {} cons {}".format(
        ref.vars,
        ref.sense,
        (obj.const, obj.lin, obj.quad),
        [(l.const, l.lin, l.quad, s, r.const, r.lin, r.quad) for l, s, r, _ in cons],
    )
    mon.note(text)
    qp.from_docplex(mdl)
    got = read(qp)
    mon.equal(got.name, mdl.name, "import-name", text)
    mon.equal(
        [v.key()[0 if not unnamed else 1 :] for v in got.vars],
        [v.key()[0 if not unnamed else 1 :] for v in ref.vars],
        "import-variables",
        text,
    )
    mon.equal(got.sense, ref.sense, "import-sense", text)
    mon.equal(len(got.cons), len(cons), "import-constraint-count", text)
    names = {c.name: c for c in got.cons}
    lin_iter = iter(got.lcons)
    quad_iter = iter(got.qcons)
    pairs = []
    for left, sense, right, name in cons:
        if name is not None:
            mon.check(name in names, "import-constraint-name", lambda: name + " " + text)
            pairs.append((left, sense, right, names[name]))
        else:
            it = quad_iter if tri(left.quad) or tri(right.quad) else lin_iter
            con = next(it, None)
            if con is None:
                pairs = None
                break
            pairs.append((left, sense, right, con))
    if any(name is not None for *_, name in cons) and any(name is None for *_, name in cons):
        pairs = None
    for _ in range(8):
        x = gen.any_point(rng, RefPoint(ref))
        mon.event("import:points")
        mon.equal(got.objective(x), obj.at(x), "import-objective", text)
        if pairs is not None:
            for left, sense, right, con in pairs:
                lhs = value(0, con.lin, con.quad or {}, x)
                mon.equal(
                    holds(con.sense, lhs, con.rhs),
                    holds(sense, left.at(x), right.at(x)),
                    "import-constraint",
                    "{} at {}: {}".format(con, x, text),
                )
                diff = left.at(x) - right.at(x)
                mon.check(
                    lhs - con.rhs == diff or (
                        lhs - con.rhs == -diff and (con.sense != sense or sense == "==")
                    ),
                    "import-constraint-value",
                    text,
                )
        else:
            mon.equal(
                all(holds(c.sense, value(0, c.lin, c.quad or {}, x), c.rhs) for c in got.cons),
                all(holds(s, l.at(x), r.at(x)) for l, s, r, _ in cons),
                "import-feasible",
                text,
            )
    if cons or obj.quad:
        mon.seen(text)


class RefPoint:
    """Finite bounds for drawing points."""

    def __init__(self, ref):
        self.vars = [
            RefVar(v.name, v.type, max(v.lb, -50), min(v.ub, 50) if v.ub > -50 else v.ub)
            for v in ref.vars
        ]


def check_unsupported(rng, mon):
    mdl = Model("bad")
    x = mdl.binary_var(name="x")
    y = mdl.binary_var(name="y")
    z = mdl.integer_var(0, 5, name="z")
    w = mdl.continuous_var(0, 5, name="w")
    mdl.minimize(x + y + z)
    mdl.add_constraint(x + y >= 1, "c0")
    kinds = {
        "not-equal": lambda: mdl.add_constraint(x + z != 1, "bad"),
        "range": lambda: mdl.add_range(1, x + z, 3, "bad"),
        "indicator": lambda: mdl.add_indicator(x, z + y <= 3, 1, "bad"),
        "if-then": lambda: mdl.add_if_then(x + y == 2, z <= 3),
        "equivalence": lambda: mdl.add_equivalence(x, z <= 2),
        "sos1": lambda: mdl.add_sos1([x, y]),
        "sos2": lambda: mdl.add_sos2([x, y, z]),
        "semi-continuous": lambda: mdl.semicontinuous_var(lb=1, ub=5, name="s"),
        "semi-integer": lambda: mdl.semiinteger_var(lb=1, ub=5, name="s"),
        "abs": lambda: mdl.minimize(mdl.abs(x - z)),
        "max": lambda: mdl.add_constraint(mdl.max(x, z) <= 3),
        "min": lambda: mdl.minimize(mdl.min(x, z, 2)),
        "logical-or": lambda: mdl.add_constraint(mdl.logical_or(x, y) == 1),
        "logical-and": lambda: mdl.add_constraint(mdl.logical_and(x, y) == 1),
        "piecewise": lambda: mdl.minimize(mdl.piecewise(0, [(1, 2), (3, 1)], 2)(w)),
        "lazy": lambda: mdl.add_lazy_constraint(x + z <= 4),
        "multi-objective": lambda: mdl.set_multi_objective("min", [x + z, y]),
        "quadratic-not-equal": None,
        "pwl-constraint": lambda: mdl.add_constraint(
            mdl.piecewise(0, [(1, 2), (3, 1)], 2)(w) <= 3
        ),
    }
    kinds.pop("quadratic-not-equal")
    kind = rng.choice(sorted(kinds))
    kinds[kind]()
    if rng.random() < 0.5:
        mdl.add_constraint(z + w <= 7, "c9")
    qp = used_program(rng)
    mon.event("unsupported")
    mon.event("unsupported:" + kind)
    mon.raises(Exception, lambda: qp.from_docplex(mdl), "unsupported-loaded:" + kind, kind)


def run_case(rng, mon, k, tier):
    ref = check_export(rng, mon)
    check_import(rng, mon)
    if rng.random() < 0.3:
        check_unsupported(rng, mon)
    if rng.random() < 0.3:
        check_degenerate(rng, mon)
    if k % 4 == 0:
        tmp = tempfile.mkdtemp(prefix="vp_c04_")
        try:
            check_lp(rng, mon, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if k < 3:
        mon.sample({"program": repr(ref)[:300]})
