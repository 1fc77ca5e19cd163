"""C06: substitution of variables preserves objective, constraints and bounds."""
from collections import Counter
from fractions import Fraction as F

from qiskit_optimization import QiskitOptimizationError, QuadraticProgram

from vp import gen
from vp.ref import B, C, I, INF, RefCon, RefQP, RefVar, build, clean, frac, holds, num, read, tri

PROPERTY = "C06"
LEVEL = "exploration"
RULE = (
    "random programs put through up to three rounds of simultaneous substitutions by constants and "
    "multiples (by name or position); result compared with an exact substitution of the polynomials, "
    "bounds and status, and original against result at corresponding points; invalid substitutions "
    "attempted; non-trivial: something substituted; distinct by program and substitution"
)
CASES = {"quick": 6320, "thorough": 75840}
REQUIRED = {
    "rounds": 2000,
    "points": 4000,
    "product-of-substituted": 300,
    "negative-multiple": 300,
    "infinite-bound": 100,
    "constraint-became-constant": 100,
    "infeasible:bounds": 50,
    "infeasible:constant": 50,
    "infeasible:constraint": 50,
    "valid": 500,
    "refused": 300,
    "cancelled": 20,
    "name-clash": 15,
}


def subst_poly(const, lin, quad, subs, keep):
    """Exact substitution: subs[i] = (None, value) or (j, factor); keep: old -> new position."""

    def image(i):
        if i in subs:
            j, v = subs[i]
            return (None, v) if j is None else (keep[j], v)
        return keep[i], F(1)

    const, nlin, nquad = frac(const), {}, {}
    for i, w in lin.items():
        j, v = image(i)
        if j is None:
            const += w * v
        else:
            nlin[j] = nlin.get(j, F(0)) + w * v
    for (i, k), w in (quad or {}).items():
        (j, v), (m, u) = image(i), image(k)
        if j is None and m is None:
            const += w * v * u
        elif j is None:
            nlin[m] = nlin.get(m, F(0)) + w * v * u
        elif m is None:
            nlin[j] = nlin.get(j, F(0)) + w * v * u
        else:
            key = (min(j, m), max(j, m))
            nquad[key] = nquad.get(key, F(0)) + w * v * u
    return const, clean(nlin), tri(nquad)


def expected(mon, ref, subs):
    """The program after the substitution and what is known about it.

    The last element holds the quadratic constraints that became linear."""
    keep, turned = {}, set()
    for i in range(ref.n):
        if i not in subs:
            keep[i] = len(keep)
    res = RefQP(ref.name)
    for i in keep:
        v = ref.vars[i]
        res.vars.append(RefVar(v.name, v.type, v.lb, v.ub))
    reasons = set()
    near = False
    clash = set()
    for i, (j, v) in subs.items():
        lb, ub = ref.vars[i].lb, ref.vars[i].ub
        if j is None:
            if not frac(lb) <= v <= frac(ub):
                reasons.add("bounds")
            continue
        lo = F(lb) / v if abs(lb) < INF else (lb if v > 0 else -lb)
        up = F(ub) / v if abs(ub) < INF else (ub if v > 0 else -ub)
        if v < 0:
            lo, up = up, lo
        if abs(lb) >= INF or abs(ub) >= INF:
            mon.event("infinite-bound")
        tgt = res.vars[keep[j]]
        tgt.lb = max(frac(tgt.lb), frac(lo))
        tgt.ub = min(frac(tgt.ub), frac(up))
        if tgt.lb > tgt.ub:
            clash.add(keep[j])
    for p in clash:
        if abs(res.vars[p].lb - res.vars[p].ub) < 1e-9:
            near = True
    if clash:
        reasons.add("bounds")
    res.sense = ref.sense
    res.const, res.lin, res.quad = subst_poly(ref.const, ref.lin, ref.quad, subs, keep)
    for c in ref.cons:
        const, lin, quad = subst_poly(0, c.lin, c.quad, subs, keep)
        if not lin and not quad:
            mon.event("constraint-became-constant")
            had = [i for i in c.lin] + [i for ij in (c.quad or {}) for i in ij]
            if any(i not in subs or subs[i][0] is not None for i in had):
                mon.event("cancelled")
            if not holds(c.sense, F(0), c.rhs - const):
                reasons.add("constraint")
            continue
        new = RefCon(c.name, lin, quad if quad else None, c.sense, c.rhs - const)
        if c.quad is not None and not quad:
            turned.add(id(new))
        (res.lcons if not quad else res.qcons).append(new)
    return res, keep, clash, reasons, near, turned


def poly_keys(cons):
    """Multiset of constraints, without those that have no variables."""
    return Counter(
        (tuple(sorted(c.lin.items())), tuple(sorted((c.quad or {}).items())), c.sense, c.rhs)
        for c in cons
        if c.lin or c.quad
    )


def random_subs(rng, mon, ref):
    idx = list(range(ref.n))
    rng.shuffle(idx)
    subs = {}
    n_subs = rng.randint(0, ref.n) if rng.random() < 0.5 else rng.randint(1, min(3, ref.n))
    chosen, rest = idx[:n_subs], idx[n_subs:]
    for i in chosen:
        v = ref.vars[i]
        if not rest or rng.random() < 0.45:
            lo = v.lb if abs(v.lb) < INF else -20
            up = v.ub if abs(v.ub) < INF else 20
            lo, up = min(lo, up), max(lo, up)
            val = frac(rng.choice([lo, up, lo + (up - lo) / 2]))
            if v.type != C:
                val = F(int(val))
            roll = rng.random()
            if roll < 0.06:
                val = frac(up) + rng.choice([F(1, 4), F(1)])
            elif roll < 0.12:
                val = frac(lo) - rng.choice([F(1, 4), F(1)])
            elif roll < 0.2:
                val = F(0)
            # dyadic, so that sums are exact
            subs[i] = (None, F(round(val * 8), 8))
        else:
            fac = F(rng.choice([1, 1, -1, -1, 2, -2, 4, -4])) / rng.choice([1, 1, 1, 2])
            if rng.random() < 0.05:
                fac = F(rng.choice([3, -3, 5]))
            if fac < 0:
                mon.event("negative-multiple")
            subs[i] = (rng.choice(rest[:2] if rng.random() < 0.5 else rest), fac)
    return subs


def args(rng, ref, subs):
    def key(i):
        return ref.vars[i].name if rng.random() < 0.5 else i

    order = list(subs)
    rng.shuffle(order)
    constants = {key(i): num(subs[i][1], rng) for i in order if subs[i][0] is None}
    variables = {
        key(i): (key(subs[i][0]), num(subs[i][1], rng)) for i in order if subs[i][0] is not None
    }
    kw = {}
    if constants or rng.random() < 0.5:
        kw["constants"] = constants
    if variables or rng.random() < 0.5:
        kw["variables"] = variables
    return kw


def one_round(rng, mon, qp, ref):
    subs = random_subs(rng, mon, ref)
    kw = args(rng, ref, subs)
    text = "{} with {}".format(ref, kw)
    mon.note(text)
    mon.event("rounds")
    want, keep, clash, reasons, near, turned = expected(mon, ref, subs)
    res = qp.substitute_variables(**kw)
    mon.equal(read(qp).key(), ref.key(), "source-modified", text)
    got = read(res)
    for i, j in ref.quad:
        if i != j and i in subs and j in subs:
            mon.event("product-of-substituted")
    infeasible = res.status == QuadraticProgram.Status.INFEASIBLE
    if not near:
        for reason in reasons:
            mon.event("infeasible:" + reason)
            if reason == "bounds" and any(j is None for j, _ in subs.values()):
                mon.event("infeasible:constant")
        if not reasons:
            mon.event("valid")
        mon.equal(infeasible, bool(reasons), "status", "{} reasons {}".format(text, reasons))
    mon.equal(got.name, ref.name, "name", text)
    mon.equal(
        [(v.name, v.type) for v in got.vars], [(v.name, v.type) for v in want.vars], "vars", text
    )
    for i, (g, w) in enumerate(zip(got.vars, want.vars)):
        if i not in clash:
            mon.close(g.lb, w.lb, "lower-bound", "{} {}".format(g.name, text), 1e-9)
            mon.close(g.ub, w.ub, "upper-bound", "{} {}".format(g.name, text), 1e-9)
    mon.equal(got.sense, want.sense, "sense", text)
    mon.equal((got.const, got.lin, got.quad), (want.const, want.lin, want.quad), "objective", text)
    mon.equal(poly_keys(got.cons), poly_keys(want.cons), "constraints", text)
    kept = {c.name for c in want.lcons if id(c) not in turned}
    if any(id(c) in turned and c.name in kept for c in want.lcons):
        mon.event("name-clash")
    mon.equal(
        Counter(c.name for c in got.lcons if c.name in kept),
        Counter(c.name for c in want.lcons if id(c) not in turned),
        "linear-constraint-names",
        text,
    )
    mon.equal(
        len({c.name for c in got.lcons}), len(got.lcons), "linear-constraint-names-unique", text
    )
    mon.equal([c.name for c in got.qcons], [c.name for c in want.qcons], "quad-names", text)
    # corresponding points, through the public evaluation
    for _ in range(3):
        y = [F(rng.randint(-12, 12), rng.choice([1, 2, 4])) for _ in keep]
        x = []
        for i in range(ref.n):
            if i in subs:
                j, v = subs[i]
                x.append(v if j is None else v * y[keep[j]])
            else:
                x.append(y[keep[i]])
        mon.event("points")
        if keep:
            val = res.objective.evaluate([float(t) for t in y])
        else:
            val = res.objective.constant
        mon.close(val, qp.objective.evaluate([float(t) for t in x]), "value", text, 1e-9)
    if subs:
        mon.seen((ref.key(), sorted((i, j, v) for i, (j, v) in subs.items() if j is not None)))
    return res, got, infeasible


def check_refused(rng, mon):
    ref = gen.qp(rng, n=rng.randint(3, 6))
    qp = build(ref, rng)
    names = [v.name for v in ref.vars]
    a, b, c = rng.sample(range(ref.n), 3)

    def key(i):
        return names[i] if rng.random() < 0.5 else i

    what = rng.choice(
        ["twice-const", "twice-both", "twice-var", "self", "zero", "chain", "chain-rev", "chain-const"]
    )
    if what == "twice-const":
        kw = {"constants": {names[a]: 1, a: 1}}
    elif what == "twice-both":
        kw = {"constants": {key(a): 1}, "variables": {key(a): (key(b), 1)}}
    elif what == "twice-var":
        kw = {"variables": {names[a]: (key(b), 1), a: (key(c), 2)}}
    elif what == "self":
        kw = {"variables": {key(a): (key(a), rng.choice([1, 2, -1]))}}
    elif what == "zero":
        kw = {"variables": {key(a): (key(b), rng.choice([0, 0.0]))}}
    elif what == "chain":
        kw = {"variables": {key(a): (key(b), 1), key(b): (key(c), 2)}}
    elif what == "chain-rev":
        kw = {"variables": {key(b): (key(c), 1), key(a): (key(b), 2)}}
    else:
        kw = {"constants": {key(b): 1}, "variables": {key(a): (key(b), 2)}}
    mon.event("refused")
    mon.event("refused:" + what)
    mon.raises(
        QiskitOptimizationError,
        lambda: qp.substitute_variables(**kw),
        "not-refused:" + what,
        "{} {}".format(kw, ref),
    )
    mon.equal(read(qp).key(), ref.key(), "source-modified-by-refusal", what)


def run_case(rng, mon, k, tier):
    style = rng.choice(["small", "dyadic", "sparse", "small", "micro", "wide"])
    ref = gen.qp(
        rng,
        n=rng.choice([1, 2, 3, 4, 5, 6, 7, rng.choice([12, 12, 25])]),
        types=rng.choice([(B, I, C), (B,), (C,), (B, I)]),
        style=style,
        con_style=rng.choice(["small", "dyadic", "sparse", "micro"]),
    )
    for v in ref.vars:
        if v.type == C and rng.random() < 0.25:
            if rng.random() < 0.6:
                v.ub = 1e20
            if rng.random() < 0.6:
                v.lb = -1e20
    if rng.random() < 0.3 and ref.lcons:
        # quadratic constraints that may become linear, named as linear ones
        for c in ref.qcons[: len(ref.lcons)]:
            c.name = ref.lcons[rng.randrange(len(ref.lcons))].name
            if c.name in [d.name for d in ref.qcons if d is not c]:
                c.name += "_q"
            elif rng.random() < 0.3 and not any(d.name == "_" + c.name for d in ref.lcons):
                clone = ref.lcons[0]
                ref.lcons.append(
                    RefCon("_" + c.name, dict(clone.lin), None, clone.sense, clone.rhs)
                )
    if rng.random() < 0.2 and ref.n >= 2:
        # something that cancels when one variable replaces the other
        i, j = rng.sample(range(ref.n), 2)
        c = F(rng.choice([1, 2, -3]))
        ref.lcons.append(
            RefCon("diff", {i: c, j: -c}, None, rng.choice(["<=", ">=", "=="]), rng.randint(-1, 1))
        )
        if rng.random() < 0.5:
            ref.qcons.append(
                RefCon("sq", {}, {(i, i): c, (i, j): -c}, rng.choice(["<=", ">="]), rng.randint(-1, 1))
            )
        if rng.random() < 0.5:
            one = {i: c, j: -c} if rng.random() < 0.5 else {j: -c}
            ref.qcons.append(
                RefCon("one", one, {(i, j): c}, rng.choice(["<=", ">=", "=="]), rng.randint(-1, 1))
            )
    qp = build(ref, rng)
    for _ in range(rng.choice([1, 1, 2, 3])):
        qp, ref, infeasible = one_round(rng, mon, qp, ref)
        if infeasible or ref.n == 0:
            break
    if rng.random() < 0.3:
        check_refused(rng, mon)
    if k < 3:
        mon.sample({"result": repr(ref)[:300]})
