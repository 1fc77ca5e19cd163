"""C14: samples are read from the eigenstate with the right bits and probabilities."""
from collections import OrderedDict

import numpy as np
from qiskit_optimization.algorithms import MinimumEigenOptimizer, OptimizationResultStatus as Status
from qiskit_optimization.applications import OptimizationApplication
from qiskit_optimization.converters import IntegerToBinary, InequalityToEquality
from qiskit_optimization.converters import LinearEqualityToPenalty, QuadraticProgramToQubo

from vp import gen
from vp.checks.c10 import problem
from vp.checks.c13 import converters
from vp.ref import B, I, build, read
from vp.results import check_result
from vp.stubs import Eigensolver, anything, state

PROPERTY = "C14"
LEVEL = "exploration"
RULE = (
    "random compatible problems solved with an eigensolver that returns arbitrary states in every "
    "representation; raw samples, interpreted samples and correlations compared with those computed "
    "from the probabilities given to the state; non-trivial: at least two basis states; distinct by "
    "problem and state"
)
CASES = {"quick": 4800, "thorough": 57600}
REQUIRED = {
    "raw": 3000,
    "interpreted": 2000,
    "merged": 80,
    "below-cutoff": 50,
    "feasible-and-infeasible": 50,
    "form:vector": 50,
    "form:dict": 50,
    "form:dictfn": 50,
    "form:vecfn": 50,
    "form:statefn": 50,
    "correlations": 300,
    "maximize": 200,
    "most-likely": 400,
    "wide": 200,
    "large": 60,
}


def most_likely(rng, mon):
    """The most likely sample of vectors, counts and state functions."""
    n = rng.choice([1, 2, 3, 5, rng.choice([8, 11])])
    top = rng.randrange(2 ** n)
    others = [i for i in range(2 ** n) if i != top]
    others = rng.sample(others, rng.randint(0, min(50, len(others))))
    probs = {i: 0.25 / len(others) for i in others}
    probs[top] = 1.0 - sum(probs.values())
    form = rng.choice(["vector", "dict", "dictfn", "vecfn", "statefn", "counts", "ordered"])
    if form in ("counts", "ordered"):
        items = [(format(i, "0{}b".format(n)), int(round(4096 * p))) for i, p in probs.items()]
        rng.shuffle(items)
        arg = OrderedDict(items) if form == "ordered" else dict(items)
    elif form == "dict":
        arg = {format(i, "0{}b".format(n)): p ** 0.5 for i, p in probs.items()}
    else:
        arg = state(rng, n, probs, form)
    mon.event("most-likely")
    x = OptimizationApplication.sample_most_likely(arg)
    mon.equal(
        [int(a) for a in x], [(top >> i) & 1 for i in range(n)], "most-likely", "{} {}".format(form, probs)
    )


def wide(rng):
    """Two integer variables with readings of one and two digits."""
    ref = gen.qp(rng, n=2, types=(I,), max_lin=0, max_quad=0, style="small")
    for v in ref.vars:
        v.lb = float(rng.choice([0, 0, -3, 1]))
        v.ub = v.lb + rng.choice([11, 13, 15])
    if rng.random() < 0.3:
        # one variable with many values
        ref.vars = ref.vars[:1]
        ref.vars[0].ub = ref.vars[0].lb + rng.choice([130, 255, 256, 300, 1000])
        ref.lin = {i: w for i, w in ref.lin.items() if i == 0}
        ref.quad = {ij: w for ij, w in ref.quad.items() if ij == (0, 0)}
    return ref


def run_case(rng, mon, k, tier):
    most_likely(rng, mon)
    if rng.random() < 0.12:
        mon.event("wide")
        ref = wide(rng)
    elif rng.random() < 0.06:
        mon.event("large")
        ref = gen.qp(rng, n=11, types=(B,), max_lin=0, max_quad=0)
    else:
        ref = problem(rng, 9)
    kw = converters(rng, mon, ref, None)
    solver = Eigensolver(rng, anything(rng, max_states=rng.choice([8, 64])))
    opt = MinimumEigenOptimizer(solver, **kw)
    # a converter of the harness gives the QUBO and the readings
    convs = kw.get("converters", None)
    conv = QuadraticProgramToQubo()
    if convs == []:
        chain = []
    elif isinstance(convs, list):
        chain = [InequalityToEquality("integer"), IntegerToBinary(), LinearEqualityToPenalty()]
    else:
        chain = [conv]
    judge(rng, mon, opt, solver, ref, chain, str(kw))
    if k < 3:
        n, _, probs, form = solver.calls[-1]
        mon.sample({"problem": repr(ref)[:200], "state": str(probs)[:200], "form": form})


def judge(rng, mon, opt, solver, ref, chain, text):
    """Solves `ref`; `chain` are converters that do what those of the optimizer do."""
    qp = build(ref, rng)
    res = opt.solve(qp)
    qubo_qp = build(ref, rng)
    for c in chain:
        qubo_qp = c.convert(qubo_qp)
    qubo = read(qubo_qp)
    if ref.sense == -1:
        mon.event("maximize")
    text = "{} {}".format(text, ref)
    if not solver.calls:
        mon.check(False, "eigensolver-not-called", text)
    n, energies, probs, form = solver.calls[-1]
    text += " state {} as {}".format(probs, form)
    mon.note(text)
    mon.event("form:" + form)
    mon.equal(n, qubo.n, "qubits", text)
    check_result(mon, res, ref, qp, text)
    mon.check(
        res.min_eigen_solver_result is not None
        and res.min_eigen_solver_result.eigenvalue == solver.last.eigenvalue,
        "eigensolver-result",
        text,
    )

    # raw samples
    above = {i: p for i, p in probs.items() if p >= 1e-6}
    if len(above) < len(probs):
        mon.event("below-cutoff")
    raw = res.raw_samples
    got = {}
    for s in raw:
        bits = [int(b) for b in s.x]
        mon.equal(len(bits), n, "raw-length", text)
        idx = sum(b << i for i, b in enumerate(bits))
        mon.check(idx not in got, "raw-repeated", lambda: "{} {}".format(bits, text))
        got[idx] = s
    mon.equal(set(got), set(above), "raw-states", text)
    for idx, s in got.items():
        mon.event("raw")
        mon.check(
            abs(s.probability - above[idx]) <= 1e-8,
            "raw-probability",
            lambda: "{} {} instead of {}: {}".format(idx, s.probability, above[idx], text),
        )
        bits = np.array([[(idx >> i) & 1 for i in range(n)]], dtype=float)
        mon.close(s.fval, qubo.values(bits)[0], "raw-value", text, 1e-9)
    fvals = [qubo.sense * s.fval for s in raw]
    mon.check(
        all(a <= b + 1e-9 * (1 + abs(b)) for a, b in zip(fvals, fvals[1:])), "raw-order", text
    )

    # interpreted samples
    want = {}
    for idx, p in above.items():
        x = np.array([(idx >> i) & 1 for i in range(n)], dtype=float)
        for c in chain[::-1]:
            x = c.interpret(x)
        key = tuple(float(a) for a in x)
        want[key] = want.get(key, 0.0) + p
    if len(want) < len(above):
        mon.event("merged")
    have = {}
    for s in res.samples:
        key = tuple(float(a) for a in s.x)
        mon.check(key not in have, "sample-repeated", lambda: "{} {}".format(key, text))
        have[key] = s
    mon.equal(set(have), set(want), "samples", text)
    for key, s in have.items():
        mon.event("interpreted")
        mon.check(
            abs(s.probability - want[key]) <= 1e-6,
            "sample-probability",
            lambda: "{} {} instead of {}: {}".format(key, s.probability, want[key], text),
        )
    ranks = [(s.status != Status.SUCCESS, ref.sense * s.fval) for s in res.samples]
    for (a, fa), (b, fb) in zip(ranks, ranks[1:]):
        mon.check(a <= b, "feasible-first", text)
        if a == b:
            mon.check(fa <= fb + 1e-9 * (1 + abs(fb)), "sample-order", text)
    if len({a for a, _ in ranks}) == 2:
        mon.event("feasible-and-infeasible")

    # the result is the reading of the best raw sample
    best = min(fvals)
    readings = set()
    for idx in above:
        bits = np.array([[(idx >> i) & 1 for i in range(n)]], dtype=float)
        if qubo.sense * qubo.values(bits)[0] <= best + 1e-9 * (1 + abs(best)):
            x = bits[0]
            for c in chain[::-1]:
                x = c.interpret(x)
            readings.add(tuple(float(a) for a in x))
    mon.check(tuple(float(a) for a in res.x) in readings, "result-not-best", text)

    # correlations of pairs (only the strict lower triangle is filled)
    corr = np.asarray(res.get_correlations())
    mon.equal(corr.shape, (ref.n, ref.n), "correlation-shape", text)
    mon.event("correlations")
    for i in range(ref.n):
        for j in range(i):
            val = sum(p if x[i] == x[j] else -p for x, p in want.items())
            mon.check(
                abs(corr[i, j] - val) <= 1e-6
                and (abs(corr[j, i]) <= 1e-9 or abs(corr[j, i] - val) <= 1e-6),
                "correlation",
                lambda: "{} {}: {} instead of {} {}".format(i, j, corr[i, j], val, text),
            )
    if len(above) > 1:
        mon.seen((ref.key(), sorted(above.items())))
