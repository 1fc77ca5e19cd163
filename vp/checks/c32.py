"""C32: converters written by the user take part in every optimizer that takes converters."""
import numpy as np
from qiskit_optimization.algorithms import (
    GroverOptimizer,
    IntermediateResult,
    MinimumEigenOptimizer,
    RecursiveMinimumEigenOptimizer,
    SlsqpOptimizer,
    WarmStartQAOAOptimizer,
)
from qiskit_optimization.converters import (
    InequalityToEquality,
    IntegerToBinary,
    LinearEqualityToPenalty,
    QuadraticProgramToQubo,
)

from vp import gen
from vp.checks import c13, c14, c15, c24
from vp.checks.c10 import all_bits, problem
from vp.checks.c18 import Instance, check_state, picker
from vp.customs import KINDS, Custom, Derived
from vp.ref import B, build, read
from vp.results import check_result
from vp.stubs import Eigensolver, anything, exact, inner_optimizer

PROPERTY = "C32"
LEVEL = "exploration"
RULE = (
    "chains of converters written by the harness (reordered, renamed, flipped, padded, rescaled, "
    "negated programs) around and in place of the library's, in every optimizer that takes "
    "converters; what each converter is given, what the solver is given, optimum, samples and "
    "replacements compared with a chain of twins that the harness runs itself; optimizers reused, "
    "converters failing; non-trivial: a converter of the harness that changes the program; "
    "distinct by problem and chain"
)
CASES = {"quick": 6000, "thorough": 72000}
REQUIRED = {
    "min-eigen:exact": 300,
    "min-eigen:samples": 300,
    "recursive": 300,
    "warm-start": 150,
    "grover": 60,
    "before": 300,
    "after": 300,
    "only": 60,
    "derived": 100,
    "reused": 100,
    "given": 1000,
    "read": 3000,
    "refused": 80,
    "failed": 60,
}
REQUIRED.update({"kind:" + kind: 150 for kind in KINDS})


def chain_of(rng, mon, ref, before=True):
    """(converters for the optimizer, twins of theirs)."""
    recipe = []

    def custom():
        kind = rng.choice(KINDS)
        mon.event("kind:" + kind)
        seed = rng.randrange(10 ** 6)
        recipe.append(lambda: Custom(kind, seed))

    many = rng.choice([1, 1, 2, 3])
    plain = not ref.cons and all(v.type == B for v in ref.vars)
    if plain and rng.random() < 0.3:
        mon.event("only")
        for _ in range(many):
            custom()
    else:
        where = rng.choice(["before", "after", "both", "derived"])
        mon.event("before" if where == "both" else where)
        if where in ("before", "both"):
            for _ in range(many):
                custom()
        if where == "derived":
            kind, seed = rng.choice(KINDS), rng.randrange(10 ** 6)
            mon.event("kind:" + kind)
            recipe.append(lambda: Derived(kind, seed))
        elif rng.random() < 0.6:
            recipe.append(QuadraticProgramToQubo)
        else:
            recipe.append(lambda: InequalityToEquality("integer"))
            recipe.append(IntegerToBinary)
            recipe.append(LinearEqualityToPenalty)
        if where in ("after", "both"):
            for _ in range(many):
                custom()
    return [make() for make in recipe], [make() for make in recipe]


def size(rng, ref, twins):
    qp = build(ref, rng)
    for c in twins:
        qp = c.convert(qp)
    return qp.get_num_vars()


def observed(convs):
    return [getattr(c, "after", c) for c in convs]


def compare(mon, convs, twins, text):
    """What the converters of the optimizer saw since the last call, against their twins."""
    for mine, twin in zip(observed(convs), observed(twins)):
        if not isinstance(mine, Custom):
            continue
        mon.check(len(mine.converted) > 0, "converter-left-out", lambda: "{} {}".format(mine, text))
        want, form = twin.converted[-1]
        pts = all_bits(want.n) if all(v.type == B for v in want.vars) else want.points()[:64]
        for given, _ in mine.converted:
            mon.event("given")
            mon.equal(
                [v.key() for v in given.vars], [v.key() for v in want.vars], "given-variables", text
            )
            mon.equal(given.sense, want.sense, "given-sense", text)
            mon.equal(len(given.cons), len(want.cons), "given-constraints", text)
            mon.check(
                np.allclose(given.values(pts), want.values(pts), rtol=1e-9, atol=1e-7)
                and np.array_equal(given.feasible_mask(pts), want.feasible_mask(pts)),
                "given-program",
                lambda: "{} instead of {}: {}".format(given, want, text),
            )
        mon.check(len(mine.interpreted) > 0, "not-read", lambda: "{} {}".format(mine, text))
        for y in mine.interpreted:
            mon.event("read")
            mon.equal(len(y), form.n, "length-read", text)
            mon.check(
                all(v.lb <= a <= v.ub and a == int(a) for v, a in zip(form.vars, y)),
                "point-read",
                lambda: "{} of {} {}".format(y, form.vars, text),
            )
        if mine.kind != "same":
            mon.seen((want.key(), repr(mine)))
        del mine.converted[:], mine.interpreted[:]


def unchanged(mon, optimizer, convs, kept, text):
    mon.check(
        len(convs) == len(kept) and all(a is b for a, b in zip(convs, kept)),
        "converters-changed",
        text,
    )


def watched_solve(mon, opt):
    """`solve` of the optimizer leaves the program as it was."""
    inner = opt.solve

    def solve(qp):
        before = read(qp).key()
        res = inner(qp)
        mon.check(read(qp).key() == before, "program-changed", repr(qp))
        return res

    opt.solve = solve
    return opt


def grover_problem(rng):
    while True:
        ref = gen.qp(rng, n=rng.choice([1, 2, 3]), types=(B,), max_lin=0, max_quad=0, style="small")
        convs, twins = grover_chain(rng)
        qp = build(ref, rng)
        for c in twins:
            qp = c.convert(qp)
        qubo = read(qp)
        if qubo.n > 4:
            continue
        vals = qubo.sense * qubo.values(all_bits(qubo.n))
        if np.any(vals != np.round(vals)) or vals.max() - vals.min() > 40 or abs(vals).max() > 40:
            continue
        return ref, qubo, convs, twins


def grover_chain(rng):
    recipe = [(rng.choice(KINDS), rng.randrange(10 ** 6)) for _ in range(rng.choice([1, 1, 2]))]
    return [[Custom(*r) for r in recipe] for _ in range(2)]


def grover(rng, mon):
    ref, qubo, convs, twins = grover_problem(rng)
    table = {
        tuple(int(b) for b in x): int(v)
        for x, v in zip(all_bits(qubo.n), qubo.sense * qubo.values(all_bits(qubo.n)))
    }
    top, low = max(table.values()), min(table.values())
    n_val = 1
    while 2 ** (n_val - 1) - 1 < max(top - min(low, 0), top - low) or 2 ** (n_val - 1) < max(
        0, top
    ) - low:
        n_val += 1
    if qubo.n + n_val > 10:
        return mon.event("too-large")
    text = "grover {} {}".format(convs, ref)
    mon.note(text)
    mon.event("grover")
    inst = Instance(True, picker(rng, "best", table, qubo.n, n_val, 64), 64)
    opt = GroverOptimizer(n_val, num_iterations=3, quantum_instance=inst, converters=convs)
    qp = build(ref, rng)
    res = watched_solve(mon, opt).solve(qp)
    check_result(mon, res, ref, qp, text)
    check_state(mon, inst.runs[0], table, 0, qubo.n, n_val, text)
    best, _ = ref.optimum()
    mon.close(res.fval, best, "not-optimal", text)
    mon.equal(res.n_input_qubits, qubo.n, "input-qubits", text)
    mon.close(qubo.sense * res.intermediate_fval, low, "intermediate-value", text)
    for s in res.raw_samples:
        mon.equal(len(s.x), qubo.n, "raw-sample-length", text)
        key = tuple(int(a) for a in s.x)
        mon.close(qubo.sense * s.fval, table[key], "raw-sample-value", text)
    images = set()
    for s in res.raw_samples:
        x = np.array(s.x, dtype=float)
        for c in twins[::-1]:
            x = c.interpret(x)
        images.add(tuple(float(a) for a in x))
    mon.equal({tuple(float(a) for a in s.x) for s in res.samples}, images, "samples", text)
    compare(mon, convs, twins, text)


def refused(rng, mon, convs):
    mon.event("refused")
    for bad in (convs + ["QuadraticProgramToQubo"], [QuadraticProgramToQubo], "qubo", 3):
        for make in (
            lambda: MinimumEigenOptimizer(Eigensolver(rng, exact(rng)), converters=bad),
            lambda: RecursiveMinimumEigenOptimizer(inner_optimizer(None), converters=bad),
            lambda: GroverOptimizer(3, converters=bad),
            lambda: WarmStartQAOAOptimizer(
                SlsqpOptimizer(), True, Eigensolver(rng, exact(rng)), converters=bad
            ),
        ):
            mon.raises(TypeError, make, "converters-accepted", repr(bad))


def run_case(rng, mon, k, tier):
    if k % 8 == 7:
        return grover(rng, mon)
    role = k % 4
    while True:
        ref = problem(rng, 6 if role == 3 else 8)
        convs, twins = chain_of(rng, mon, ref)
        if size(rng, ref, twins) <= (7 if role == 3 else 11):
            break
    kept = list(convs)
    arg = convs[0] if len(convs) == 1 and rng.random() < 0.5 else convs
    text = "{} {}".format(convs, ref)
    mon.note(text)

    def again():
        while True:
            other = problem(rng, 5)
            if any(not isinstance(c, Custom) for c in observed(convs)) or any(
                isinstance(c, Derived) for c in convs
            ):
                fits = True
            else:
                fits = not other.cons and all(v.type == B for v in other.vars)
            if fits and size(rng, other, twins) <= 11:
                return other

    if role < 2:
        solver = Eigensolver(rng, exact(rng) if role == 0 else anything(rng))
        opt = watched_solve(mon, MinimumEigenOptimizer(solver, converters=arg))
        rounds = [ref]
        if rng.random() < 0.4:
            mon.event("reused")
            rounds.append(again())
        for now in rounds:
            if rng.random() < 0.1:
                failing(rng, mon, opt, now, convs, text)
            size(rng, now, twins)
            if role == 0:
                mon.event("min-eigen:exact")
                c13.judge(rng, mon, opt, now, text)
            else:
                mon.event("min-eigen:samples")
                c14.judge(rng, mon, opt, solver, now, twins, text)
            qubo = build(now, rng)
            for c in twins:
                qubo = c.convert(qubo)
            qubo = read(qubo)
            n, energies = solver.calls[-1][:2]
            mon.equal(n, qubo.n, "qubits", text)
            gap = energies - qubo.sense * qubo.values(all_bits(n))
            mon.check(
                np.ptp(gap) <= 1e-9 * (1 + np.abs(energies).max()),
                "operator",
                lambda: "{} {}".format(gap, text),
            )
            compare(mon, convs, twins, text)
    elif role == 2:
        mon.event("recursive")
        exact_run = rng.random() < 0.4
        inner = inner_optimizer(c15.best_sample(rng) if exact_run else c15.random_samples(rng))
        final = inner_optimizer(c15.best_sample(rng))
        min_vars = rng.choice([1, 1, 2, 3, 5])
        history = rng.choice(list(IntermediateResult))
        opt = RecursiveMinimumEigenOptimizer(
            inner,
            min_num_vars=min_vars,
            min_num_vars_optimizer=final,
            history=history,
            converters=arg,
        )
        watched_solve(mon, opt)
        c15.check_run(rng, mon, opt, inner, final, ref, twins, min_vars, history, exact_run)
        compare(mon, convs, twins, text)
        if rng.random() < 0.3:
            mon.event("reused")
            c15.check_run(rng, mon, opt, inner, final, again(), twins, min_vars, history, exact_run)
            compare(mon, convs, twins, text)
    else:
        mon.event("warm-start")
        c24.optimizer(rng, mon, ref, {"converters": arg}, twins)
        compare(mon, convs, twins, text)
    unchanged(mon, None, convs, kept, text)
    if rng.random() < 0.08:
        refused(rng, mon, convs)
    if k < 3:
        mon.sample({"problem": repr(ref)[:200], "converters": repr(convs)})


def failing(rng, mon, opt, ref, convs, text):
    """The error of a converter comes through, and the optimizer goes on working."""
    some = [c for c in observed(convs) if isinstance(c, Custom)]
    one = rng.choice(some)
    one.fail = True
    mon.event("failed")
    mon.raises(RuntimeError, lambda: opt.solve(build(ref, rng)), "converter-error", text)
    one.fail = False
    for c in some:
        del c.converted[:], c.interpreted[:]
