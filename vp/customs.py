"""Converters a user might write. Two of them made with the same seed do the same."""
import random
from fractions import Fraction as F

import numpy as np
from qiskit_optimization.converters import QuadraticProgramConverter, QuadraticProgramToQubo

from vp.ref import B, RefCon, RefVar, build, read


def affine(ref, sign, shift, place, variables):
    """`ref` with x[i] = shift[i] + sign[i] * y[place[i]] put in."""
    res = ref.copy()
    res.vars = variables

    def replaced(const, lin, quad):
        new_lin, new_quad = {}, {}

        def add(dic, key, val):
            dic[key] = dic.get(key, F(0)) + val

        const = F(const)
        for i, w in lin.items():
            const += w * shift[i]
            add(new_lin, place[i], w * sign[i])
        for (i, j), w in (quad or {}).items():
            const += w * shift[i] * shift[j]
            add(new_lin, place[i], w * sign[i] * shift[j])
            add(new_lin, place[j], w * sign[j] * shift[i])
            a, b = sorted((place[i], place[j]))
            add(new_quad, (a, b), w * sign[i] * sign[j])
        strip = lambda dic: {k: v for k, v in dic.items() if v}
        return const, strip(new_lin), strip(new_quad)

    res.const, res.lin, res.quad = replaced(ref.const, ref.lin, ref.quad)
    cons = []
    for c in ref.cons:
        const, lin, quad = replaced(0, c.lin, c.quad)
        cons.append(RefCon(c.name, lin, None if c.quad is None else quad, c.sense, c.rhs - const))
    res.lcons = [c for c in cons if c.quad is None]
    res.qcons = [c for c in cons if c.quad is not None]
    return res


KINDS = ["permute", "rename", "flip", "pad", "scale", "negate", "same", "rearrange"]


def transform(kind, seed, ref):
    """(`ref` in another form, reading): every optimum of the form reads as one of `ref`."""
    rng = random.Random(seed)
    n = ref.n
    sign, shift, place = [1] * n, [F(0)] * n, list(range(n))
    variables = [RefVar(v.name, v.type, v.lb, v.ub) for v in ref.vars]
    if kind in ("permute", "rearrange"):
        rng.shuffle(place)
    if kind == "rename":
        for i, v in enumerate(variables):
            v.name = "w{}".format(n - i)
    if kind in ("flip", "rearrange"):
        for i, v in enumerate(ref.vars):
            if rng.random() < 0.6:
                sign[i], shift[i] = -1, F(v.lb) + F(v.ub)
    count = rng.choice([1, 1, 2]) if kind == "pad" else 0
    extra = rng.sample(range(n + count), count)
    names = {v.name for v in ref.vars}
    free = [a for a in range(n + count) if a not in extra]
    place = [free[p] for p in place]
    made = [None] * (n + count)
    for i, p in enumerate(place):
        made[p] = variables[i]
    for a in extra:
        name = "idle"
        while name in names:
            name += "_"
        names.add(name)
        made[a] = RefVar(name, B, 0.0, 1.0)
    res = affine(ref, sign, shift, place, made)
    for a in extra:
        cost = F(rng.choice([0, 0, 1, 3])) * ref.sense
        if cost:
            res.lin[a] = cost
    factor = F(1)
    if kind == "scale":
        factor = F(rng.choice([2, 3, F(1, 2)]))
        res.const += rng.randint(-5, 5)
    if kind == "negate":
        factor = F(-1)
        res.sense = -res.sense
    if factor != 1:
        res.const *= factor
        res.lin = {i: w * factor for i, w in res.lin.items()}
        res.quad = {ij: w * factor for ij, w in res.quad.items()}

    def reading(y):
        return [float(shift[i]) + sign[i] * float(y[place[i]]) for i in range(n)]

    return res, reading


class Custom(QuadraticProgramConverter):
    """One of KINDS; keeps a record of what it was given."""

    def __init__(self, kind, seed):
        self.kind, self.seed = kind, seed
        self.converted = []
        self.interpreted = []
        self.reading = None
        self.fail = False

    def convert(self, problem):
        if self.fail:
            raise RuntimeError("converter failed")
        ref = read(problem)
        res, self.reading = transform(self.kind, self.seed, ref)
        self.converted.append((ref, res))
        if self.kind == "same":
            return problem
        return build(res, random.Random(self.seed))

    def interpret(self, x):
        self.interpreted.append([float(a) for a in x])
        if self.kind == "same" and isinstance(x, np.ndarray):
            return x
        return np.array(self.reading(x))

    def __repr__(self):
        return "{}#{}".format(self.kind, self.seed)


class Derived(QuadraticProgramToQubo):
    """The library's converter with something after it."""

    def __init__(self, kind, seed):
        super().__init__()
        self.after = Custom(kind, seed)

    def convert(self, problem):
        return self.after.convert(super().convert(problem))

    def interpret(self, x):
        return super().interpret(self.after.interpret(x))

    def __repr__(self):
        return "qubo+{}".format(self.after)
