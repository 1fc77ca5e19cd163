"""C24: warm-start QAOA prepares the relaxed solution and merges its runs."""
import numpy as np
from qiskit import BasicAer
from qiskit.algorithms import QAOA
from qiskit.algorithms.optimizers import COBYLA
from qiskit.quantum_info import Operator, Statevector
from qiskit.utils import QuantumInstance
from qiskit_optimization import QiskitOptimizationError, QuadraticProgram
from qiskit_optimization.algorithms import (
    MeanAggregator,
    MinimumEigenOptimizationResult,
    OptimizationAlgorithm,
    OptimizationResult,
    OptimizationResultStatus as Status,
    SlsqpOptimizer,
    SolutionSample,
    WarmStartQAOAFactory,
    WarmStartQAOAOptimizer,
)
from qiskit_optimization.algorithms.warm_start_qaoa_optimizer import BaseAggregator
from qiskit_optimization.converters import QuadraticProgramToQubo

from vp.checks.c10 import all_bits, problem
from vp.checks.c13 import converters
from vp.ref import B, C, build, read
from vp.results import check_result
from vp.stubs import Eigensolver, anything, inner_optimizer

PROPERTY = "C24"
LEVEL = "exploration"
RULE = (
    "initial states and mixers of random relaxed solutions simulated; warm-start runs with a "
    "recorded pre-solver (any number of solutions, failures injected) and a recorded eigensolver "
    "returning arbitrary states, merged samples compared with the average of the recorded "
    "distributions; aggregators fed directly; real QAOA runs; non-trivial: several runs merged; "
    "distinct by problem and states"
)
CASES = {"quick": 2930, "thorough": 35160}
REQUIRED = {
    "own-factory": 20,
    "factory": 400,
    "clipped": 300,
    "mixer": 400,
    "runs": 800,
    "merged-runs": 150,
    "shared-samples": 50,
    "relaxed": 150,
    "not-relaxed": 150,
    "presolver-failed": 40,
    "maximize": 150,
    "custom-aggregator": 20,
    "aggregator": 150,
    "epsilon-refused": 50,
    "real-qaoa": 4,
}


def probabilities(circuit):
    """Probability of one for each qubit, and whether the qubits are independent."""
    n = circuit.num_qubits
    probs = Statevector.from_instruction(circuit).probabilities()
    idx = np.arange(2 ** n)
    ones = np.array([probs[((idx >> i) & 1) == 1].sum() for i in range(n)])
    product = np.ones(2 ** n)
    for i in range(n):
        bit = (idx >> i) & 1
        product *= np.where(bit == 1, ones[i], 1 - ones[i])
    return ones, bool(np.allclose(product, probs, atol=1e-7))


def clip(x, eps):
    return [min(max(float(a), eps), 1 - eps) for a in x]


def check_state(mon, circuit, want, text):
    mon.equal(circuit.num_qubits, len(want), "state-qubits", text)
    ones, independent = probabilities(circuit)
    mon.check(
        independent and np.allclose(ones, want, atol=1e-7),
        "initial-state",
        lambda: "{} instead of {} {}".format(ones, want, text),
    )


def check_mixer(rng, mon, circuit, state, want, text):
    """One angle; the initial state is an eigenstate, its orthogonal states get other phases."""
    mon.event("mixer")
    mon.equal(circuit.num_qubits, len(want), "mixer-qubits", text)
    mon.equal(len(circuit.parameters), 1, "mixer-parameters", text)
    (par,) = circuit.parameters
    beta = rng.uniform(0.1, 1.4)
    unitary = Operator(circuit.bind_parameters({par: beta})).data
    vec = Statevector.from_instruction(state).data
    after = unitary @ vec
    overlap = np.vdot(vec, after)
    mon.check(
        abs(abs(overlap) - 1) < 1e-7,
        "mixer-changes-state",
        lambda: "|overlap| {} {}".format(abs(overlap), text),
    )
    # Ry(theta) Rz(-2 beta) Ry(-theta) on every qubit
    full = np.eye(1)
    for p in want:
        th = 2 * np.arcsin(np.sqrt(p))
        ry = np.array([[np.cos(th / 2), -np.sin(th / 2)], [np.sin(th / 2), np.cos(th / 2)]])
        rz = np.diag([np.exp(1j * beta), np.exp(-1j * beta)])
        full = np.kron(ry @ rz @ ry.T, full)
    phase = np.vdot(full.ravel(), unitary.ravel()) / len(full)
    mon.check(
        abs(abs(phase) - 1) < 1e-7, "mixer", lambda: "{} beta {} {}".format(want, beta, text)
    )


def factory(rng, mon):
    n = rng.choice([1, 2, 3, 4, rng.choice([4, 6])])
    eps = rng.choice([0.0, 0.5, 0.25, 0.1, 0.125, rng.uniform(0, 0.5)])
    x = []
    for _ in range(n):
        x.append(
            rng.choice([0.0, 1.0, eps, 1 - eps, 0.5, rng.random(), rng.random(), -1e-9, 1 + 1e-9])
        )
    arg = np.array(x) if rng.random() < 0.7 else list(x)
    made = WarmStartQAOAFactory(eps)
    text = "eps {} solution {}".format(eps, x)
    mon.event("factory")
    got = made.create_initial_variables(arg)
    want = clip(x, eps)
    if want != x:
        mon.event("clipped")
    mon.check(
        len(got) == n and np.allclose(got, want, atol=1e-12),
        "initial-variables",
        lambda: "{} {}".format(got, text),
    )
    state = made.create_initial_state(got)
    check_state(mon, state, want, text)
    check_mixer(rng, mon, made.create_mixer(got), state, want, text)
    if rng.random() < 0.3:
        mon.event("epsilon-refused")
        bad = rng.choice([-0.001, 0.5001, 1.0, -3])
        mon.raises(QiskitOptimizationError, lambda: WarmStartQAOAFactory(bad), "bad-epsilon")
        mon.raises(
            QiskitOptimizationError,
            lambda: WarmStartQAOAOptimizer(
                SlsqpOptimizer(), True, Eigensolver(rng, anything(rng)), epsilon=bad
            ),
            "bad-epsilon",
        )


class Recorder(Eigensolver):
    """An eigensolver in QAOA's place; remembers how it was set up for each run."""

    def __init__(self, rng, choose):
        super().__init__(rng, choose)
        self.initial_state = None
        self.mixer = None
        self.setups = []

    def compute_minimum_eigenvalue(self, operator, aux_operators=None):
        self.setups.append((self.initial_state, self.mixer))
        return super().compute_minimum_eigenvalue(operator, aux_operators)


class Failing(OptimizationAlgorithm):
    def __init__(self, status):
        self.status = status

    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        return OptimizationResult(
            x=[0.0] * problem.get_num_vars(),
            fval=0.0,
            variables=problem.variables,
            status=self.status,
        )


def optimizer(rng, mon, ref=None, kw=None, chain=None):
    """`chain` are converters that do what those of `kw` do."""
    if ref is None:
        ref = problem(rng, 6)
        kw = converters(rng, mon, ref, None)
        chain = [] if kw.get("converters") == [] else [QuadraticProgramToQubo()]
    conv = build(ref, rng)
    for c in chain:
        conv = c.convert(conv)
    qubo = read(conv)
    relax = rng.random() < 0.5
    eps = rng.choice([0.25, 0.1, 0.5, 0.0])
    wanted = rng.choice([1, 2, 2, 3, 5])
    offered = rng.choice([1, 2, 3, 6])
    mon.event("relaxed" if relax else "not-relaxed")
    if ref.sense == -1:
        mon.event("maximize")
    few = rng.sample(range(2 ** qubo.n), min(3, 2 ** qubo.n))

    def pre(sub):
        pts = []
        for _ in range(offered):
            if relax:
                pts.append(tuple(rng.choice([0.0, 1.0, rng.random()]) for _ in sub.vars))
            else:
                pts.append(tuple(float(rng.randint(0, 1)) for _ in sub.vars))
        if offered == 1 and rng.random() < 0.5:
            return pts[0], None
        return pts[0], [(p, 1 / offered) for p in pts]

    def choose(n, energies):
        probs = anything(rng, tiny=False)(n, energies)
        if rng.random() < 0.5:
            extra = {i: probs.get(i, 0) + 1.0 for i in few}
            probs = {**probs, **extra}
            total = sum(probs.values())
            probs = {i: p / total for i, p in probs.items()}
        return probs

    presolver = inner_optimizer(pre)
    solver = Recorder(rng, choose)
    custom = None
    if wanted > 1 and rng.random() < 0.3:

        class Custom(BaseAggregator):
            def __init__(self):
                self.given = None

            def aggregate(self, results):
                self.given = results
                return MeanAggregator().aggregate(results)

        custom = Custom()
    prepared = lambda point: clip(point, eps)
    if rng.random() < 0.2:
        # a factory of the user's decides what is prepared
        other = rng.choice([0.0, 0.125, 0.375])

        class Turned(WarmStartQAOAFactory):
            def create_initial_variables(self, solution):
                return [1.0 - a for a in super().create_initial_variables(solution)]

        turned = rng.random() < 0.5
        kw["warm_start_factory"] = (Turned if turned else WarmStartQAOAFactory)(other)
        mon.event("own-factory")
        prepared = lambda point: [1.0 - a if turned else a for a in clip(point, other)]
    opt = WarmStartQAOAOptimizer(
        presolver,
        relax,
        solver,
        epsilon=eps,
        num_initial_solutions=wanted,
        aggregator=custom,
        **kw
    )
    text = "relax {} eps {} wanted {} offered {} {}".format(relax, eps, wanted, offered, ref)
    mon.note(text)
    for _ in range(rng.choice([1, 1, 2])):
        del presolver.calls[:], solver.calls[:], solver.setups[:]
        qp = build(ref, rng)
        res = opt.solve(qp)
        check_result(mon, res, ref, qp, text)
        # pre-solver
        mon.equal(len(presolver.calls), 1, "pre-solver-calls", text)
        given, x, samples, _ = presolver.calls[0]
        mon.check(
            all(v.type == (C if relax else B) for v in given.vars),
            "pre-solver-types",
            lambda: "{} {}".format(given.vars, text),
        )
        mon.equal(
            [(v.name, float(v.lb), float(v.ub)) for v in given.vars],
            [(v.name, 0.0, 1.0) for v in qubo.vars],
            "pre-solver-variables",
            text,
        )
        pts = all_bits(qubo.n)
        mon.check(
            not given.cons
            and given.sense == qubo.sense
            and np.allclose(given.values(pts), qubo.values(pts), atol=1e-7),
            "pre-solver-problem",
            text,
        )
        if relax:
            inside = np.array([[rng.random() for _ in qubo.vars] for _ in range(4)])
            mon.check(
                np.allclose(given.values(inside), qubo.values(inside), atol=1e-6),
                "relaxed-objective",
                text,
            )
        # runs
        used = [s[0] for s in samples][:wanted] if samples is not None else [x]
        mon.equal(len(solver.calls), len(used), "runs", text)
        for point, (state, mixer), (n, _, _, _) in zip(used, solver.setups, solver.calls):
            mon.event("runs")
            mon.equal(n, qubo.n, "qubits", text)
            check_state(mon, state, prepared(point), text)
            check_mixer(rng, mon, mixer, state, prepared(point), text)
        # merged samples
        want = {}
        owners = {}
        for r, (n, _, probs, _) in enumerate(solver.calls):
            for idx, p in probs.items():
                y = np.array([(idx >> i) & 1 for i in range(n)], dtype=float)
                for c in chain[::-1]:
                    y = c.interpret(y)
                key = tuple(float(a) for a in y)
                want[key] = want.get(key, 0.0) + p / len(used)
                owners.setdefault(key, set()).add(r)
        if len(used) > 1:
            mon.event("merged-runs")
            mon.seen((ref.key(), [sorted(c[2].items()) for c in solver.calls]))
            if any(len(o) > 1 for o in owners.values()):
                mon.event("shared-samples")
            if custom is not None:
                mon.event("custom-aggregator")
                mon.check(
                    custom.given is not None and len(custom.given) == len(used),
                    "aggregator-not-used",
                    text,
                )
        have = {}
        for s in res.samples:
            key = tuple(float(a) for a in s.x)
            mon.check(key not in have, "sample-repeated", lambda: "{} {}".format(key, text))
            have[key] = s.probability
        mon.equal(set(have), set(want), "samples", text)
        for key, p in have.items():
            mon.check(
                abs(p - want[key]) < 1e-5,
                "sample-probability",
                lambda: "{} {} instead of {} {}".format(key, p, want[key], text),
            )
        ranks = [(s.status != Status.SUCCESS, ref.sense * s.fval) for s in res.samples]
        mon.check(
            all(
                a[0] < b[0] or (a[0] == b[0] and a[1] <= b[1] + 1e-9 * (1 + abs(b[1])))
                for a, b in zip(ranks, ranks[1:])
            ),
            "sample-order",
            lambda: "{} {}".format(ranks, text),
        )
        if len(used) > 1:
            mon.check(
                tuple(float(a) for a in res.x) == tuple(float(a) for a in res.samples[0].x),
                "best-sample-first",
                text,
            )
    if rng.random() < 0.25:
        mon.event("presolver-failed")
        status = rng.choice([Status.FAILURE, Status.INFEASIBLE])
        solver = Recorder(rng, choose)
        opt = WarmStartQAOAOptimizer(Failing(status), relax, solver, epsilon=eps, **kw)
        mon.raises(
            QiskitOptimizationError,
            lambda: opt.solve(build(ref, rng)),
            "failed-pre-solver",
            text,
        )
        mon.check(not solver.calls, "solved-after-failed-pre-solver", text)


def aggregator(rng, mon):
    """MeanAggregator on results made by hand."""
    mon.event("aggregator")
    n = rng.choice([1, 2, 3, rng.choice([5, 11])])
    qp = QuadraticProgram()
    for _ in range(n):
        qp.binary_var()
    count = rng.choice([1, 2, 3, 5])
    results, want, fvals = [], {}, {}
    for _ in range(count):
        states = rng.sample(range(2 ** n), rng.randint(1, min(40, 2 ** n)))
        weights = [rng.random() + 0.01 for _ in states]
        samples = []
        for s, w in zip(states, weights):
            x = tuple(float((s >> i) & 1) for i in range(n))
            p = w / sum(weights)
            fvals.setdefault(x, float(rng.randint(-9, 9)))
            want[x] = want.get(x, 0.0) + p / count
            samples.append(SolutionSample(np.array(x), fvals[x], p, Status.SUCCESS))
        results.append(
            MinimumEigenOptimizationResult(
                x=samples[0].x,
                fval=samples[0].fval,
                variables=qp.variables,
                status=Status.SUCCESS,
                samples=samples,
            )
        )
    got = MeanAggregator().aggregate(results)
    have = {tuple(float(a) for a in s.x): s for s in got}
    mon.equal(len(have), len(got), "aggregated-twice")
    mon.equal(set(have), set(want), "aggregated")
    for x, s in have.items():
        mon.close(s.probability, want[x], "aggregated-probability", x, 1e-9)
        mon.close(s.fval, fvals[x], "aggregated-value", x)
        mon.equal(s.status, Status.SUCCESS, "aggregated-status")


def real(rng, mon):
    ref = problem(rng, 3)
    qp = build(ref, rng)
    instance = QuantumInstance(
        BasicAer.get_backend("statevector_simulator"), seed_simulator=1, seed_transpiler=1
    )
    qaoa = QAOA(optimizer=COBYLA(maxiter=3), reps=1, quantum_instance=instance)
    opt = WarmStartQAOAOptimizer(
        SlsqpOptimizer(trials=3), True, qaoa, num_initial_solutions=rng.choice([1, 2])
    )
    mon.event("real-qaoa")
    try:
        res = opt.solve(qp)
    except QiskitOptimizationError:
        # the relaxation is not convex: the pre-solver may end outside the bounds
        mon.event("real-qaoa:pre-solver")
        return
    check_result(mon, res, ref, qp, repr(ref))


def run_case(rng, mon, k, tier):
    factory(rng, mon)
    optimizer(rng, mon)
    if rng.random() < 0.5:
        aggregator(rng, mon)
    if k % 50 == 0:
        real(rng, mon)
    if k < 3:
        mon.sample({"case": k})
