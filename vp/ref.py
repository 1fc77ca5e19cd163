"""Reference model of a quadratic program, independent of the code under test.

Coefficients are kept exact (Fraction). Nothing here calls into qiskit_optimization except
`read` and `build`, which translate through the public API.
"""
import itertools
from fractions import Fraction as F

import numpy as np

INF = 1e20
B, I, C = "B", "I", "C"


def frac(v):
    return F(float(v)) if not isinstance(v, (int, F)) else F(v)


class RefVar:
    __slots__ = ("name", "type", "lb", "ub")

    def __init__(self, name, typ, lb, ub):
        self.name, self.type, self.lb, self.ub = name, typ, lb, ub

    def key(self):
        return (self.name, self.type, float(self.lb), float(self.ub))

    def __repr__(self):
        return "{}:{}[{},{}]".format(self.name, self.type, self.lb, self.ub)


class RefCon:
    """lin * x + x * quad * x  sense  rhs; quad is None for a linear constraint."""

    __slots__ = ("name", "lin", "quad", "sense", "rhs")

    def __init__(self, name, lin, quad, sense, rhs):
        self.name, self.sense, self.rhs = name, sense, frac(rhs)
        self.lin = clean(lin)
        self.quad = None if quad is None else tri(quad)

    def key(self):
        return (
            self.name,
            tuple(sorted(self.lin.items())),
            None if self.quad is None else tuple(sorted(self.quad.items())),
            self.sense,
            self.rhs,
        )

    def __repr__(self):
        return "{}: {} {} {} {}".format(
            self.name, show(self.lin), show(self.quad or {}), self.sense, float(self.rhs)
        )


def show(dic):
    return {k: float(v) for k, v in dic.items()}


def clean(lin):
    return {i: frac(v) for i, v in lin.items() if frac(v) != 0}


def tri(quad):
    """Fold symmetric positions on the upper triangle."""
    res = {}
    for (i, j), v in quad.items():
        key = (min(i, j), max(i, j))
        res[key] = res.get(key, F(0)) + frac(v)
    return {k: v for k, v in res.items() if v != 0}


def value(const, lin, quad, x):
    """Exact value at x (a sequence of Fractions or numbers)."""
    res = frac(const)
    for i, v in lin.items():
        res += v * x[i]
    for (i, j), v in (quad or {}).items():
        res += v * x[i] * x[j]
    return res


def fvalue(const, lin, quad, x):
    """Value in floating point."""
    res = float(const)
    for i, v in lin.items():
        res += float(v) * x[i]
    for (i, j), v in (quad or {}).items():
        res += float(v) * x[i] * x[j]
    return res


def holds(sense, lhs, rhs):
    if sense == "<=":
        return lhs <= rhs
    if sense == ">=":
        return lhs >= rhs
    return lhs == rhs


class RefQP:
    def __init__(self, name=""):
        self.name = name
        self.vars = []
        self.sense = 1  # 1: minimize, -1: maximize
        self.const = F(0)
        self.lin = {}
        self.quad = {}
        self.lcons = []
        self.qcons = []

    # -- description
    def key(self, names=True):
        return (
            self.name if names else None,
            tuple(v.key() for v in self.vars),
            self.sense,
            self.const,
            tuple(sorted(self.lin.items())),
            tuple(sorted(self.quad.items())),
            tuple(c.key() for c in self.lcons),
            tuple(c.key() for c in self.qcons),
        )

    def __repr__(self):
        return "{} {} {} + {} + {} st {} {}".format(
            self.vars,
            "min" if self.sense == 1 else "max",
            float(self.const),
            show(self.lin),
            show(self.quad),
            self.lcons,
            self.qcons,
        )

    def copy(self):
        res = RefQP(self.name)
        res.vars = [RefVar(v.name, v.type, v.lb, v.ub) for v in self.vars]
        res.sense, res.const = self.sense, self.const
        res.lin, res.quad = dict(self.lin), dict(self.quad)
        res.lcons = [RefCon(c.name, c.lin, None, c.sense, c.rhs) for c in self.lcons]
        res.qcons = [RefCon(c.name, c.lin, c.quad, c.sense, c.rhs) for c in self.qcons]
        return res

    @property
    def n(self):
        return len(self.vars)

    @property
    def cons(self):
        return self.lcons + self.qcons

    def domain_size(self):
        size = 1
        for v in self.vars:
            size *= int(v.ub) - int(v.lb) + 1
        return size

    # -- exact evaluation of one point
    def objective(self, x):
        return value(self.const, self.lin, self.quad, x)

    def in_bounds(self, x):
        return all(v.lb <= xi <= v.ub for v, xi in zip(self.vars, x))

    def violated(self, x):
        """(indices of violated variables, violated constraints) at x, exactly."""
        bad_v = [i for i, (v, xi) in enumerate(zip(self.vars, x)) if not v.lb <= xi <= v.ub]
        bad_c = [c for c in self.cons if not holds(c.sense, value(0, c.lin, c.quad, x), c.rhs)]
        return bad_v, bad_c

    def feasible(self, x):
        bad_v, bad_c = self.violated(x)
        return not bad_v and not bad_c

    # -- enumeration (discrete problems)
    def points(self):
        """All points of the (discrete) domain as a float matrix; exact for small numbers."""
        ranges = [np.arange(int(v.lb), int(v.ub) + 1, dtype=float) for v in self.vars]
        if not ranges:
            return np.zeros((1, 0))
        grids = np.meshgrid(*ranges, indexing="ij")
        return np.stack([g.ravel() for g in grids], axis=1)

    def values(self, pts):
        return evaluate_many(self.const, self.lin, self.quad, pts)

    def feasible_mask(self, pts):
        mask = np.ones(len(pts), dtype=bool)
        for i, v in enumerate(self.vars):
            mask &= (pts[:, i] >= float(v.lb)) & (pts[:, i] <= float(v.ub))
        for c in self.cons:
            lhs = evaluate_many(0, c.lin, c.quad or {}, pts)
            rhs = float(c.rhs)
            if c.sense == "<=":
                mask &= lhs <= rhs + 1e-9
            elif c.sense == ">=":
                mask &= lhs >= rhs - 1e-9
            else:
                mask &= np.abs(lhs - rhs) <= 1e-9
        return mask

    def optimum(self):
        """(optimal value, matrix of optimal points), or (None, None) if infeasible."""
        pts = self.points()
        pts = pts[self.feasible_mask(pts)]
        if len(pts) == 0:
            return None, None
        vals = self.values(pts)
        best = (self.sense * vals).min()
        return self.sense * best, pts[self.sense * vals <= best + 1e-9]


def evaluate_many(const, lin, quad, pts):
    res = np.full(len(pts), float(const))
    for i, v in lin.items():
        res += float(v) * pts[:, i]
    for (i, j), v in quad.items():
        res += float(v) * pts[:, i] * pts[:, j]
    return res


# ---------------------------------------------------------------- translation, public API only


def read_sense(con):
    from qiskit_optimization.problems.constraint import ConstraintSense

    return {ConstraintSense.LE: "<=", ConstraintSense.GE: ">=", ConstraintSense.EQ: "=="}[con.sense]


def read_type(var):
    from qiskit_optimization.problems.variable import VarType

    return {VarType.BINARY: B, VarType.INTEGER: I, VarType.CONTINUOUS: C}[var.vartype]


def read_lin(expr):
    return clean({int(i): v for i, v in expr.to_dict().items()})


def read_quad(expr):
    return tri({(int(i), int(j)): v for (i, j), v in expr.to_dict().items()})


def read(qp):
    """The reference model of what `qp` says through its public API."""
    ref = RefQP(qp.name)
    for v in qp.variables:
        ref.vars.append(RefVar(v.name, read_type(v), v.lowerbound, v.upperbound))
    ref.sense = 1 if qp.objective.sense.name == "MINIMIZE" else -1
    ref.const = frac(qp.objective.constant)
    ref.lin = read_lin(qp.objective.linear)
    ref.quad = read_quad(qp.objective.quadratic)
    for c in qp.linear_constraints:
        ref.lcons.append(RefCon(c.name, read_lin(c.linear), None, read_sense(c), c.rhs))
    for c in qp.quadratic_constraints:
        ref.qcons.append(
            RefCon(c.name, read_lin(c.linear), read_quad(c.quadratic), read_sense(c), c.rhs)
        )
    return ref


def num(v, rng=None):
    """A Python number for a Fraction (int or float at random for integers)."""
    v = frac(v)
    if v.denominator == 1 and abs(v) < 2 ** 53:
        if rng is not None and rng.random() < 0.5:
            return float(v)
        return int(v)
    return float(v)


def lin_arg(rng, lin, names, plain=False):
    """Linear coefficients in one of the supported input formats."""
    n = len(names)
    style = 0 if plain else rng.randrange(7)
    items = list(lin.items())
    if not plain:
        rng.shuffle(items)
    if style == 0:
        return {names[i]: num(v, rng) for i, v in items}
    if style == 1:
        return {i: num(v, rng) for i, v in items}
    if style == 2:
        return {(names[i] if rng.random() < 0.5 else i): num(v, rng) for i, v in items}
    dense = [0] * n
    for i, v in items:
        dense[i] = num(v, rng)
    if style == 3:
        return dense
    if style == 4:
        return np.array(dense)
    from scipy.sparse import csr_matrix, dok_matrix

    if n == 0:
        return {}
    mat = np.array([dense], dtype=float)
    return dok_matrix(mat) if style == 5 else csr_matrix(mat)


def quad_arg(rng, quad, names, plain=False):
    """Quadratic coefficients in one of the formats, split over (i,j) and (j,i) at random."""
    n = len(names)
    split = {}
    items = list(quad.items())
    if not plain:
        rng.shuffle(items)
    for (i, j), v in items:
        how = 0 if plain else rng.randrange(4)
        if i == j or how == 0:
            split[i, j] = v
        elif how == 1:
            split[j, i] = v
        elif how == 2:
            split[i, j] = v / 2
            split[j, i] = v / 2
        else:
            part = F(rng.randint(-8, 8))
            split[i, j] = v - part
            split[j, i] = part
    style = 0 if plain else rng.randrange(7)
    if style == 0:
        return {(names[i], names[j]): num(v, rng) for (i, j), v in split.items()}
    if style == 1:
        return {(i, j): num(v, rng) for (i, j), v in split.items()}
    if style == 2:
        return {(names[i], j): num(v, rng) for (i, j), v in split.items()}
    dense = [[0] * n for _ in range(n)]
    for (i, j), v in split.items():
        dense[i][j] = num(v, rng)
    if n == 0:
        return {}
    if style == 3:
        return dense
    if style == 4:
        return np.array(dense)
    from scipy.sparse import coo_matrix, dok_matrix

    mat = np.array(dense, dtype=float)
    return dok_matrix(mat) if style == 5 else coo_matrix(mat)


SENSES = {
    "<=": ["<=", "<", "LE", "L"],
    ">=": [">=", ">", "GE", "G"],
    "==": ["==", "=", "EQ", "E"],
}


def sense_arg(rng, sense, plain=False):
    from qiskit_optimization.problems.constraint import ConstraintSense

    if plain:
        return sense
    if rng.random() < 0.2:
        return {"<=": ConstraintSense.LE, ">=": ConstraintSense.GE, "==": ConstraintSense.EQ}[sense]
    return rng.choice(SENSES[sense])


def add_var(qp, v):
    if v.type == B:
        var = qp.binary_var(v.name)
        if v.lb > 0:
            var.lowerbound = v.lb
        if v.ub < 1:
            var.upperbound = v.ub
        return var
    if v.type == I:
        return qp.integer_var(v.lb, v.ub, v.name)
    return qp.continuous_var(v.lb, v.ub, v.name)


def build(ref, rng, plain=False):
    """A QuadraticProgram that states `ref`, entered through varied public calls."""
    from qiskit_optimization import QuadraticProgram

    qp = QuadraticProgram(ref.name)
    all_names = [v.name for v in ref.vars]
    n = len(all_names)
    late = not plain and n > 0 and rng.random() < 0.15

    def need(lin, quad):
        """Number of variables that have to exist before this expression is entered."""
        least = max([i + 1 for i in lin] + [max(ij) + 1 for ij in quad or {}] + [0])
        return rng.randint(least, n) if late else n

    def terms(form, dic, *args):
        """The terms in some format; none may be left out altogether."""
        if not plain and not dic and rng.random() < 0.3:
            return None
        return form(rng, dic, *args)

    def objective(names):
        method = qp.minimize if ref.sense == 1 else qp.maximize
        if plain or ref.const or ref.lin or ref.quad or ref.sense == -1 or rng.random() < 0.5:
            method(
                constant=num(ref.const, rng),
                linear=terms(lin_arg, ref.lin, names, plain),
                quadratic=terms(quad_arg, ref.quad, names, plain),
            )

    def linear(con):
        return lambda names: qp.linear_constraint(
            terms(lin_arg, con.lin, names, plain),
            sense_arg(rng, con.sense, plain),
            num(con.rhs, rng),
            con.name,
        )

    def quadratic(con):
        return lambda names: qp.quadratic_constraint(
            terms(lin_arg, con.lin, names, plain),
            terms(quad_arg, con.quad, names, plain),
            sense_arg(rng, con.sense, plain),
            num(con.rhs, rng),
            con.name,
        )

    # every element is entered once its variables exist; constraints keep their order
    todo = [(need(ref.lin, ref.quad), objective)]
    for cons, enter in ((ref.lcons, linear), (ref.qcons, quadratic)):
        when = 0
        for con in cons:
            when = max(when, need(con.lin, con.quad))
            todo.append((when, enter(con)))
    for k in range(n + 1):
        if k:
            add_var(qp, ref.vars[k - 1])
        for when, enter in todo:
            if when == k:
                enter(all_names[:k])
    return qp


def assignments(n, limit=None):
    pts = itertools.product((0, 1), repeat=n)
    return list(itertools.islice(pts, limit) if limit else pts)
