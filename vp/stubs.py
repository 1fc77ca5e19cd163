"""Solver boundaries under the harness's control."""
import cmath
import math

import numpy as np
from qiskit.algorithms import MinimumEigensolver, MinimumEigensolverResult
from qiskit.opflow import DictStateFn, StateFn, SummedOp, VectorStateFn
from qiskit.opflow import PauliOp


def diagonal(op):
    """Energies of a diagonal operator at all basis states (index: qubit i is bit i)."""
    op = op if isinstance(op, PauliOp) else op.to_pauli_op()
    todo = [(1.0, op)]
    n = op.num_qubits
    idx = np.arange(2 ** n)
    res = np.zeros(2 ** n)
    while todo:
        coeff, o = todo.pop()
        if isinstance(o, SummedOp):
            todo.extend((coeff * float(np.real(o.coeff)), p) for p in o.oplist)
            continue
        if not isinstance(o, PauliOp):
            o = o.to_pauli_op()
            if isinstance(o, SummedOp):
                todo.append((coeff, o))
                continue
        pauli = o.primitive
        if any(pauli.x):
            raise ValueError("not diagonal")
        sign = np.ones(2 ** n)
        for i, z in enumerate(pauli.z):
            if z:
                sign *= 1 - 2 * ((idx >> i) & 1)
        phase = ((-1j) ** int(pauli.phase)).real
        res += coeff * float(np.real(o.coeff)) * phase * sign
    return res


def state(rng, n, probs, form):
    """An eigenstate with the given probabilities {index: p}, in one of the representations."""
    amps = {i: math.sqrt(p) * cmath.exp(1j * rng.uniform(0, 6.28)) for i, p in probs.items()}
    if form in ("dict", "dictfn"):
        res = {}
        for i, a in amps.items():
            res[format(i, "0{}b".format(n))] = float(abs(a)) if rng.random() < 0.7 else a
        items = list(res.items())
        rng.shuffle(items)
        res = dict(items)
        return DictStateFn(res) if form == "dictfn" else res
    vec = np.zeros(2 ** n, dtype=complex)
    for i, a in amps.items():
        vec[i] = a
    if form == "vecfn":
        return VectorStateFn(vec)
    if form == "statefn":
        return StateFn(vec)
    return vec


FORMS = ["vector", "dict", "dictfn", "vecfn", "statefn"]


# called with the collaborator before it works; may raise, or return True to make it come up empty
HOOK = [None]


def come_up_empty(who):
    return HOOK[0] is not None and HOOK[0](who)


class Eigensolver(MinimumEigensolver):
    """Returns states chosen by `choose(n, energies)` -> {index: probability} or None."""

    def __init__(self, rng, choose, forms=None):
        self.rng = rng
        self.choose = choose
        self.forms = forms or FORMS
        self.calls = []
        self.last = None

    @classmethod
    def supports_aux_operators(cls):
        return True

    def compute_minimum_eigenvalue(self, operator, aux_operators=None):
        res = self.last = MinimumEigensolverResult()
        if come_up_empty(self):
            return res
        n = operator.num_qubits
        energies = diagonal(operator)
        probs = self.choose(n, energies)
        form = self.rng.choice(self.forms)
        self.calls.append((n, energies, probs, form))
        if probs is None:
            return res
        res.eigenvalue = sum(p * energies[i] for i, p in probs.items())
        res.eigenstate = state(self.rng, n, probs, form)
        return res


def tie(energies):
    """Differences of energies that are rounding noise."""
    return 1e-13 * (1 + float(np.abs(energies).max()))


def exact(rng, spread=True):
    """Chooses ground states: one of them or a superposition."""

    def choose(n, energies):
        low = energies.min()
        ground = [int(i) for i in np.nonzero(energies <= low + tie(energies))[0]]
        if not spread or rng.random() < 0.4:
            return {rng.choice(ground): 1.0}
        some = rng.sample(ground, rng.randint(1, min(len(ground), 6)))
        return distribution(rng, some)

    return choose


def distribution(rng, states):
    """Random probabilities on `states`, none near the cutoff of 1e-6."""
    weights = [rng.choice([1, 1, 2, 3, 5, 8, 0.01]) * rng.uniform(0.5, 1.5) for _ in states]
    total = sum(weights)
    return {s: w / total for s, w in zip(states, weights)}


def anything(rng, max_states=8, tiny=True):
    """Chooses arbitrary states."""

    def choose(n, energies):
        k = rng.choice([1, 2, 3, max_states, 2 ** n])
        states = rng.sample(range(2 ** n), min(k, 2 ** n, 64))
        probs = distribution(rng, states)
        if tiny and rng.random() < 0.3:
            rest = [s for s in range(min(2 ** n, 256)) if s not in probs][:3]
            for s in rest:
                # clearly below and above the cutoff of 1e-6
                probs[s] = rng.choice([1e-9, 1e-9, 1e-8, 3e-7, 3e-6, 8e-6, 1e-4])
            total = sum(probs.values())
            probs = {s: p / total for s, p in probs.items()}
        return probs

    return choose


def inner_optimizer(decide):
    """An OptimizationAlgorithm whose answers come from `decide(ref)`.

    `decide` gets the reference model of the problem handed over and returns
    (x, [(x, probability)] or None); every call is recorded in `.calls`.
    """
    from qiskit_optimization.algorithms import (
        OptimizationAlgorithm,
        OptimizationResult,
        OptimizationResultStatus,
        SolutionSample,
    )

    from vp.ref import read

    class Inner(OptimizationAlgorithm):
        def __init__(self):
            self.calls = []

        def get_compatibility_msg(self, problem):
            return ""

        def solve(self, problem):
            if come_up_empty(self):
                return OptimizationResult(
                    x=None,
                    fval=None,
                    variables=problem.variables,
                    status=OptimizationResultStatus.FAILURE,
                )
            ref = read(problem)
            x, samples = decide(ref)
            value = problem.objective.evaluate
            success = OptimizationResultStatus.SUCCESS
            made = None
            if samples is not None:
                made = [
                    SolutionSample(x=np.array(s), fval=value(list(s)), probability=p, status=success)
                    for s, p in samples
                ]
            res = OptimizationResult(
                x=np.array(x, dtype=float),
                fval=value(list(x)),
                variables=problem.variables,
                status=success,
                samples=made,
            )
            self.calls.append((ref, x, samples, res))
            return res

    return Inner()
