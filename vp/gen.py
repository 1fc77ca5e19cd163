"""Seeded generators of hostile inputs."""
from fractions import Fraction as F

from vp.ref import B, C, I, RefCon, RefQP, RefVar

NAME_STYLES = ["x", "x_", "v", "mixed", "rev", "word"]
WORDS = (
    "alpha beta gamma delta omega price cost y z t obj flow a b u w node edge load kappa "
    "theta rho sigma tau xi phi"
).split()


def names(rng, n, style=None):
    """n distinct names; lexical order, creation order and numeric order all differ."""
    style = style or rng.choice(NAME_STYLES)
    if style == "x":
        return ["x{}".format(i) for i in range(n)]
    if style == "x_":
        return ["x_{}".format(i) for i in range(n)]
    if style == "v":
        off = rng.choice([0, 1, 7, 8, 9, 97])
        res = ["v{}".format(i + off) for i in range(n)]
        rng.shuffle(res)
        return res
    if style == "rev":
        return ["x{}".format(n - 1 - i) for i in range(n)]
    if style == "word":
        pool = WORDS + [w.upper() for w in WORDS]
        rng.shuffle(pool)
        return pool[:n] if n <= len(pool) else names(rng, n, "v")
    res = []
    for i in range(n):
        cand = rng.choice(["x{}", "y{}", "x_{}_0", "z{}a", "X{}"]).format(rng.randint(0, 30))
        while cand in res:
            cand += rng.choice("abx01_")
        res.append(cand)
    return res


def coef(rng, style):
    """A coefficient; exactly representable in binary unless style is 'float'."""
    if style == "small":
        return F(rng.randint(-5, 5))
    if style == "dyadic":
        return F(rng.randint(-40, 40), rng.choice([1, 2, 4, 8]))
    if style == "sparse":
        return F(rng.choice([0, 0, 0, 1, -1, 2, -3]))
    if style == "big":
        return F(rng.choice([1, -1]) * rng.choice([1000, 1023, 4096, 99999]) + rng.randint(-3, 3))
    if style == "pos":
        return F(rng.randint(0, 9))
    if style == "tiny":
        return F(rng.randint(-7, 7), rng.choice([256, 1024]))
    if style == "micro":
        return F(rng.randint(-9, 9), rng.choice([2 ** 12, 2 ** 14, 2 ** 17]))
    if style == "near":
        # next to a whole number, absolutely or relatively
        if rng.random() < 0.3:
            return F(rng.randint(-4, 4))
        if rng.random() < 0.5:
            return rng.choice([-3, -1, 0, 1, 2, 7]) + F(rng.choice([-1, 1]), 2 ** rng.randint(20, 25))
        return rng.choice([1, -1]) * (rng.choice([4096, 99999, 2 ** 20]) + F(rng.choice([1, 3, 7]), 8))
    if style == "wide":
        return coef(rng, rng.choice(["small", "micro", "micro", "big", "dyadic"]))
    if style == "float":
        return F(float(round(rng.uniform(-10, 10), rng.randint(0, 6))))
    if style == "mixed":
        return coef(rng, rng.choice(["small", "small", "dyadic", "sparse", "big", "tiny"]))
    raise ValueError(style)


COEF_STYLES = ["small", "small", "dyadic", "sparse", "mixed", "pos"]
# for oracles that compare values exactly, whatever their magnitude
EXACT_STYLES = COEF_STYLES + ["tiny", "big", "micro", "wide"]


def bounds(rng, typ, width=6):
    if typ == B:
        return 0, 1
    lo = rng.choice([0, 0, 0, 1, -1, -3, -7, 2, 5, -width, -2 * width])
    kind = rng.random()
    if typ == I:
        if kind < 0.1:
            wid = 0
        elif kind < 0.4:
            wid = rng.choice([1, 3, 7])
        elif kind < 0.7:
            wid = rng.choice([2, 4, 5, 6, 8])
        else:
            wid = rng.randint(0, width)
        return lo, lo + min(wid, width)
    lo = F(lo) + F(rng.choice([0, 0, 1, 3]), 4)
    wid = F(rng.randint(0, 4 * width), 4)
    return float(lo), float(lo + wid)


def fix(rng, mon, ref, chance=0.1):
    """Fix some binary variables of some programs by their bounds."""
    if rng.random() < chance:
        for v in ref.vars:
            if v.type == B and rng.random() < 0.4:
                v.lb = v.ub = rng.randint(0, 1)
                mon.event("fixed-binary")


def lin(rng, n, style, density=None):
    density = rng.choice([0.2, 0.5, 0.9, 1.0]) if density is None else density
    res = {i: coef(rng, style) for i in range(n) if rng.random() < density}
    return {i: v for i, v in res.items() if v}


def quad(rng, n, style, density=None, diag=None):
    density = rng.choice([0.0, 0.15, 0.4, 0.8]) if density is None else density
    diag = rng.choice([0.0, 0.5, 1.0]) if diag is None else diag
    res = {}
    for i in range(n):
        for j in range(i, n):
            if rng.random() < (density if i != j else density * diag):
                v = coef(rng, style)
                if v:
                    res[i, j] = v
    return res


def variables(rng, n, types, width=6, style=None, max_points=None):
    """Variables of the given types, with a product of domain sizes below max_points."""
    res = []
    size = 1
    for name in names(rng, n, style):
        typ = rng.choice(types)
        for _ in range(20):
            lo, up = bounds(rng, typ, width)
            dom = 1 if typ == C else int(up) - int(lo) + 1
            if max_points is None or size * dom <= max_points:
                break
        else:
            typ, lo, up, dom = (
                (B, 0, 1, 2) if B in types and size * 2 <= max_points else (typ, lo, lo, 1)
            )
            if typ == B and dom == 1:
                break
        size *= dom
        res.append(RefVar(name, typ, lo, up))
    if not res:
        res.append(RefVar("x", B if B in types else types[0], 0, 1))
    return res


def some_point(rng, ref):
    """A point inside the bounds (dyadic for continuous variables)."""
    x = []
    for v in ref.vars:
        if v.type == C:
            lo, up = F(v.lb), F(v.ub)
            x.append(lo + (up - lo) * F(rng.randint(0, 8), 8))
        else:
            x.append(F(rng.randint(int(v.lb), int(v.ub))))
    return x


def any_point(rng, ref):
    """A point in or near the bounds, not necessarily integral or feasible."""
    x = some_point(rng, ref)
    for i in range(len(x)):
        roll = rng.random()
        if roll < 0.08:
            x[i] += rng.choice([F(1, 2), F(1), F(-1), F(-1, 4), F(3), F(-100)])
        elif roll < 0.16:
            x[i] = F(float(rng.choice([ref.vars[i].lb, ref.vars[i].ub])))
    return x


def constraint(rng, ref, name, quadratic, style, senses=("<=", ">=", "=="), anchor=None):
    """A constraint; its right-hand side is tight, slack or violated at `anchor`."""
    from vp.ref import value

    n = ref.n
    lin_ = lin(rng, n, style)
    quad_ = quad(rng, n, style) if quadratic else None
    if quadratic and not quad_:
        quad_ = {(0, n - 1): F(rng.choice([1, 2, -1]))}
    if not lin_ and not quad_:
        lin_ = {rng.randrange(n): F(rng.choice([1, -1, 2]))}
    sense = rng.choice(senses)
    if anchor is not None:
        at = value(0, lin_, quad_ or {}, anchor)
    else:
        at = coef(rng, style)
    roll = rng.random()
    if roll < 0.6 or sense == "==":
        rhs = at
    elif roll < 0.9:
        rhs = at + (rng.randint(0, 3) if sense == "<=" else -rng.randint(0, 3))
    else:
        rhs = at + rng.randint(-4, 4)
    return RefCon(name, lin_, quad_, sense, rhs)


def qp(
    rng,
    n=None,
    types=(B, I, C),
    max_lin=3,
    max_quad=2,
    width=6,
    style=None,
    con_style=None,
    senses=("<=", ">=", "=="),
    max_points=None,
    name_style=None,
    feasible_bias=0.85,
    obj_density=None,
):
    """A random quadratic program (reference model)."""
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6]) if n is None else n
    ref = RefQP(rng.choice(["", "prob", "my problem", "p1"]))
    ref.vars = variables(rng, n, list(types), width, name_style, max_points)
    style = style or rng.choice(COEF_STYLES)
    con_style = con_style or rng.choice(COEF_STYLES)
    ref.sense = rng.choice([1, -1])
    ref.const = coef(rng, style) if rng.random() < 0.6 else F(0)
    ref.lin = lin(rng, ref.n, style)
    ref.quad = quad(rng, ref.n, style, obj_density)
    anchor = some_point(rng, ref) if rng.random() < feasible_bias else None
    n_lin = rng.randint(0, max_lin)
    n_quad = rng.randint(0, max_quad)
    cnames = [rng.choice(["c{}", "con{}", "lin_{}"]).format(i) for i in range(n_lin)]
    qnames = [rng.choice(["q{}", "con{}q", "quad_{}"]).format(i) for i in range(n_quad)]
    if rng.random() < 0.3:
        rng.shuffle(cnames)
    for name in cnames:
        ref.lcons.append(constraint(rng, ref, name, False, con_style, senses, anchor))
    for name in qnames:
        ref.qcons.append(constraint(rng, ref, name, True, con_style, senses, anchor))
    return ref
