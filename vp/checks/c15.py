"""C15: recursive elimination only makes valid replacements and unrolls them."""
import numpy as np
from qiskit.algorithms import NumPyMinimumEigensolver
from qiskit_optimization.algorithms import (
    IntermediateResult,
    MinimumEigenOptimizer,
    RecursiveMinimumEigenOptimizer,
)
from qiskit_optimization.converters import QuadraticProgramToQubo

from vp import gen
from vp.checks.c10 import all_bits, problem
from vp.checks.c13 import converters
from vp.ref import B, build, read
from vp.results import check_result
from vp.stubs import distribution, inner_optimizer

PROPERTY = "C15"
LEVEL = "exploration"
RULE = (
    "random compatible problems with inner optimizers that report arbitrary samples (random "
    "correlation patterns) or the exact optimum; every program handed to the inner and the final "
    "optimizer is recorded and checked against its predecessor at all assignments; unrolled result "
    "checked against all replacements; non-trivial: at least one replacement; distinct by problem "
    "and replacements"
)
CASES = {"quick": 3600, "thorough": 43200}
REQUIRED = {
    "large": 60,
    "rounds": 800,
    "uncorrelated": 100,
    "replaced:equal": 300,
    "replaced:opposite": 300,
    "assignments": 20000,
    "exact": 80,
    "history:none": 50,
    "history:last": 50,
    "history:all": 50,
    "no-rounds": 20,
    "reused": 50,
    "numpy": 10,
}


def random_samples(rng):
    def decide(ref):
        n = ref.n
        if n <= 6 and rng.random() < 0.1:
            # no pair is correlated at all
            states = [tuple(int(a) for a in x) for x in all_bits(n)]
            return rng.choice(states), [(x, 1 / len(states)) for x in states]
        k = rng.choice([1, 2, 3, 5, 9])
        states = {tuple(rng.randint(0, 1) for _ in range(n)) for _ in range(k)}
        probs = distribution(rng, sorted(states))
        return rng.choice(sorted(states)), list(probs.items())

    return decide


def best_sample(rng, single=True):
    def decide(ref):
        pts = all_bits(ref.n)
        vals = ref.sense * ref.values(pts)
        ties = pts[vals <= vals.min() + 1e-9]
        x = tuple(int(a) for a in ties[rng.randrange(len(ties))])
        return x, ([(x, 1.0)] if rng.random() < 0.5 else None)

    return decide


def correlations(samples, n):
    res = np.zeros((n, n))
    for x, p in samples:
        for i in range(n):
            for j in range(n):
                res[i, j] += p if x[i] == x[j] else -p
    return res


def check_run(rng, mon, opt, inner, final, ref, chain, min_vars, history, exact_run):
    del inner.calls[:]
    del final.calls[:]
    qp = build(ref, rng)
    qubo = build(ref, rng)
    for c in chain:
        qubo = c.convert(qubo)
    qubo = read(qubo)
    text = "min_vars {} {} {}".format(min_vars, history, ref)
    mon.note(text)
    res = opt.solve(qp)
    check_result(mon, res, ref, qp, text)
    repl = res.replacements
    programs = [c[0] for c in inner.calls] + [final.calls[-1][0]]
    mon.equal(len(final.calls), 1, "final-solver-calls", text)
    mon.equal(len(inner.calls), max(0, qubo.n - min_vars), "rounds", text)
    mon.equal(len(repl), len(inner.calls), "replacement-count", text)
    mon.equal(programs[-1].n, min(qubo.n, min_vars), "variables-left", text)
    if not inner.calls:
        mon.event("no-rounds")
    first = programs[0]
    mon.equal([v.key() for v in first.vars], [v.key() for v in qubo.vars], "first-variables", text)
    pts = all_bits(qubo.n)
    mon.check(
        first.sense == qubo.sense and np.allclose(first.values(pts), qubo.values(pts), atol=1e-7),
        "first-program",
        text,
    )
    for r, (ref_k, _, samples, inner_res) in enumerate(inner.calls):
        nxt = programs[r + 1]
        mon.event("rounds")
        names = [v.name for v in ref_k.vars]
        left = [v.name for v in nxt.vars]
        gone = [nm for nm in names if nm not in left]
        mon.check(
            len(gone) == 1 and left == [nm for nm in names if nm != gone[0]],
            "one-variable-per-round",
            lambda: "{} -> {} {}".format(names, left, text),
        )
        mon.check(gone[0] in repl, "replacement-not-reported", lambda: "{} {}".format(gone, text))
        other, sign = repl[gone[0]]
        mon.check(other in left and sign in (1, -1), "replacement", lambda: "{} {}".format(repl, text))
        i, j = names.index(gone[0]), names.index(other)
        # strongest correlation
        corr = correlations(samples or [(inner.calls[r][1], 1.0)], ref_k.n)
        strongest = max(
            abs(corr[a, b]) for a in range(ref_k.n) for b in range(ref_k.n) if a != b
        )
        mon.check(
            abs(corr[i, j]) >= strongest - 1e-9,
            "not-strongest",
            lambda: "{} {} correlation {} of {} {}".format(gone, other, corr[i, j], strongest, text),
        )
        if strongest <= 1e-9:
            mon.event("uncorrelated")
        if abs(corr[i, j]) > 1e-9:
            mon.equal(sign, 1 if corr[i, j] > 0 else -1, "replacement-sign", text)
        mon.event("replaced:equal" if sign == 1 else "replaced:opposite")
        # next program
        mon.check(
            all(v.type == B and (v.lb, v.ub) == (0, 1) for v in nxt.vars),
            "next-variables",
            lambda: "{} {}".format(nxt.vars, text),
        )
        mon.check(not nxt.cons and nxt.sense == ref_k.sense, "next-shape", text)
        small = all_bits(nxt.n)
        full = np.zeros((len(small), ref_k.n))
        for p, nm in enumerate(left):
            full[:, names.index(nm)] = small[:, p]
        full[:, i] = full[:, j] if sign == 1 else 1 - full[:, j]
        mon.event("assignments", len(small))
        a, b = nxt.values(small), ref_k.values(full)
        bad = np.nonzero(np.abs(a - b) > 1e-7 * (1 + np.abs(b)))[0]
        mon.check(
            len(bad) == 0,
            "next-objective",
            lambda: "round {} {}<-{},{} at {}: {} instead of {} {}".format(
                r, gone[0], other, sign, small[bad[0]], a[bad[0]], b[bad[0]], text
            ),
        )
    # unrolled result
    values = {v.name: float(x) for v, x in zip(final.calls[-1][0].vars, final.calls[-1][1])}
    todo = dict(repl)
    while todo:
        step = [nm for nm, (other, _) in todo.items() if other in values]
        mon.check(step, "replacements-circular", lambda: "{} {}".format(repl, text))
        for nm in step:
            other, sign = todo.pop(nm)
            values[nm] = values[other] if sign == 1 else 1 - values[other]
    mon.equal(set(values), {v.name for v in qubo.vars}, "unrolled-names", text)
    x = np.array([values[v.name] for v in qubo.vars])
    for c in chain[::-1]:
        x = c.interpret(x)
    mon.check(
        np.allclose(res.x, x),
        "unrolled-result",
        lambda: "{} instead of {} ({} {}) {}".format(res.x, x, values, repl, text),
    )
    # history
    results, last = res.history
    if history == IntermediateResult.NO_ITERATIONS:
        mon.event("history:none")
        mon.check(len(results) == 0 and last is None, "history", text)
    elif history == IntermediateResult.LAST_ITERATION:
        mon.event("history:last")
        mon.check(len(results) == 0 and last is final.calls[-1][3], "history", text)
    else:
        mon.event("history:all")
        mon.check(
            len(results) == len(inner.calls)
            and all(a is c[3] for a, c in zip(results, inner.calls))
            and last is final.calls[-1][3],
            "history",
            text,
        )
    if exact_run:
        mon.event("exact")
        best, _ = ref.optimum()
        if best is not None:
            mon.close(res.fval, best, "exact-not-optimal", text, 1e-7)
    if repl:
        mon.seen((ref.key(), sorted(repl.items())))


def run_case(rng, mon, k, tier):
    max_bits = 9
    if rng.random() < 0.05:
        mon.event("large")
        ref = gen.qp(rng, n=rng.choice([11, 12]), types=(B,), max_lin=0, max_quad=0)
    else:
        ref = problem(rng, max_bits)
    kw = converters(rng, mon, ref, None)
    if k % 20 == 0:
        # the library's own solvers
        mon.event("numpy")
        small = problem(rng, 5)
        qp = build(small, rng)
        opt = RecursiveMinimumEigenOptimizer(
            MinimumEigenOptimizer(NumPyMinimumEigensolver()), min_num_vars=rng.randint(1, 3)
        )
        res = opt.solve(qp)
        check_result(mon, res, small, qp, repr(small))
    convs = kw.get("converters", None)
    if convs == []:
        chain = []
    else:
        chain = [QuadraticProgramToQubo()]
    min_vars = rng.choice([1, 1, 2, 3, 5, 9])
    history = rng.choice(list(IntermediateResult))
    exact_run = rng.random() < 0.35
    inner = inner_optimizer(best_sample(rng) if exact_run else random_samples(rng))
    final = inner_optimizer(
        best_sample(rng)
        if exact_run or rng.random() < 0.3
        else lambda r: (tuple(rng.randint(0, 1) for _ in range(r.n)), None)
    )
    opt = RecursiveMinimumEigenOptimizer(
        inner, min_num_vars=min_vars, min_num_vars_optimizer=final, history=history, **kw
    )
    check_run(rng, mon, opt, inner, final, ref, chain, min_vars, history, exact_run)
    if rng.random() < 0.25 and convs != []:
        mon.event("reused")
        ref2 = problem(rng, max_bits)
        check_run(rng, mon, opt, inner, final, ref2, chain, min_vars, history, exact_run)
    if k < 3:
        mon.sample({"problem": repr(ref)[:300]})
