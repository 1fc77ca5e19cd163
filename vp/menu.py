"""Every optimizer, with problems it takes and sub-solvers that are functions of their input."""
import random

import networkx as nx
import numpy as np
from qiskit.utils import algorithm_globals
from qiskit_optimization.algorithms import (
    ADMMOptimizer,
    ADMMParameters,
    CobylaOptimizer,
    CplexOptimizer,
    GoemansWilliamsonOptimizer,
    GroverOptimizer,
    IntermediateResult,
    MinimumEigenOptimizer,
    RecursiveMinimumEigenOptimizer,
    SlsqpOptimizer,
    WarmStartQAOAOptimizer,
)
from qiskit_optimization.applications import Maxcut

from vp import gen
from vp.checks.c10 import problem as discrete
from vp.checks.c18 import Instance
from vp.checks.c17 import in_bounds, problem as separable
from vp.ref import B, C, read
from vp.stubs import Eigensolver, anything, distribution, exact, inner_optimizer

KINDS = {
    "cplex": 2,
    "minimum-eigen": 4,
    "recursive": 3,
    "grover": 2,
    "admm": 3,
    "cobyla": 2,
    "slsqp": 2,
    "warm-start": 3,
    "goemans-williamson": 1,
}


def kind(rng):
    return rng.choice([k for k, w in KINDS.items() for _ in range(w)])


def problem(rng, which):
    """The reference model of a problem in the class of the optimizer."""
    if which == "admm":
        return separable(rng)
    if which in ("cobyla", "slsqp"):
        ref = gen.qp(
            rng, n=rng.choice([1, 2, 3, 4]), types=(C,), max_lin=2, max_quad=1, con_style="small"
        )
        for v in ref.vars:
            v.ub = max(v.ub, v.lb + 0.5)
        return ref
    if which == "goemans-williamson":
        n = rng.choice([2, 3, 4, 5])
        graph = nx.Graph()
        graph.add_nodes_from(range(n))
        for i in range(n):
            for j in range(i):
                if rng.random() < 0.7:
                    graph.add_edge(i, j, weight=rng.randint(1, 5))
        return read(Maxcut(graph).to_quadratic_program())
    if which == "grover":
        return gen.qp(
            rng, n=rng.choice([1, 2, 3]), types=(B,), max_lin=0, max_quad=0, style="small"
        )
    return discrete(rng, 7 if which == "warm-start" else 9)


def local(seed, *parts):
    return random.Random("{}|{}".format(seed, parts))


def eigensolver(seed, cls=Eigensolver, how=None):
    """Answers depend on the operator alone."""
    form = local(seed, "form").choice(["vector", "dict", "dictfn", "vecfn", "statefn"])
    how = how or local(seed, "how").choice(["any", "any", "exact", "none"])

    def choose(n, energies):
        rng = local(seed, n, [round(float(e), 6) for e in energies])
        solver.rng = rng
        if how == "none" and rng.random() < 0.7:
            return None
        return (exact(rng) if how == "exact" else anything(rng))(n, energies)

    solver = cls(random.Random(1), choose, [form]) if cls is Eigensolver else cls(choose)
    return solver


class Substitute(Eigensolver):
    """Stands in for QAOA."""

    def __init__(self, choose):
        super().__init__(random.Random(1), choose)
        self.initial_state = None
        self.mixer = None


def sampler(seed):
    def decide(ref):
        rng = local(seed, ref.key())
        states = {tuple(rng.randint(0, 1) for _ in ref.vars) for _ in range(rng.choice([1, 2, 4]))}
        probs = distribution(rng, sorted(states))
        return rng.choice(sorted(states)), list(probs.items())

    return decide


def bounded(seed):
    def decide(ref):
        return in_bounds(local(seed, ref.key()), ref), None

    return decide


def relaxed(seed, count):
    def decide(ref):
        rng = local(seed, ref.key())
        pts = [tuple(rng.choice([0.0, 1.0, rng.random()]) for _ in ref.vars) for _ in range(count)]
        return pts[0], [(p, 1 / count) for p in pts]

    return decide


def make(which, seed):
    """The optimizer; equal seeds give optimizers that behave equally."""
    rng = local(seed, which)
    if which == "cplex":
        return CplexOptimizer()
    if which == "minimum-eigen":
        return MinimumEigenOptimizer(eigensolver(seed))
    if which == "recursive":
        roll = rng.random()
        if roll < 0.5:
            inner = inner_optimizer(sampler(seed))
        else:
            inner = MinimumEigenOptimizer(eigensolver(seed, how="any"))
        return RecursiveMinimumEigenOptimizer(
            inner,
            min_num_vars=rng.choice([1, 2, 3]),
            min_num_vars_optimizer=inner_optimizer(sampler(seed + 1)),
            history=rng.choice(list(IntermediateResult)),
        )
    if which == "grover":
        return GroverOptimizer(6, num_iterations=2, quantum_instance=Instance(False, None, 1))
    if which == "admm":
        return ADMMOptimizer(
            qubo_optimizer=inner_optimizer(bounded(seed)),
            continuous_optimizer=inner_optimizer(bounded(seed + 1)),
            params=ADMMParameters(
                maxiter=rng.choice([1, 2, 4]),
                three_block=rng.random() < 0.6,
                vary_rho=rng.choice([0, 1]),
                warm_start=rng.random() < 0.3,
                rho_initial=rng.choice([10000, 10, 1]),
            ),
        )
    if which == "cobyla":
        return CobylaOptimizer(trials=rng.choice([1, 2]), maxfun=60)
    if which == "slsqp":
        return SlsqpOptimizer(
            trials=rng.choice([1, 2]), iter=30, full_output=rng.random() < 0.5
        )
    if which == "warm-start":
        count = rng.choice([1, 2, 3])
        return WarmStartQAOAOptimizer(
            inner_optimizer(relaxed(seed, count)),
            True,
            eigensolver(seed, Substitute, "any"),
            num_initial_solutions=rng.choice([1, count]),
        )
    return GoemansWilliamsonOptimizer(num_cuts=4, seed=seed)


def reseed(seed):
    np.random.seed(seed)
    random.seed(seed)
    algorithm_globals.random_seed = seed
