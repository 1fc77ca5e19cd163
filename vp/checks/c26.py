"""C26: compatibility is announced truthfully and enforced."""
from fractions import Fraction as F

import numpy as np
from qiskit import BasicAer
from qiskit.algorithms import QAOA
from qiskit.utils import QuantumInstance
from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import (
    ADMMOptimizer,
    ADMMParameters,
    CobylaOptimizer,
    CplexOptimizer,
    GoemansWilliamsonOptimizer,
    GroverOptimizer,
    MinimumEigenOptimizer,
    RecursiveMinimumEigenOptimizer,
    SlsqpOptimizer,
    WarmStartQAOAOptimizer,
)
from qiskit_optimization.converters import QuadraticProgramToQubo

from vp import gen
from vp.ref import B, C, I, build, read
from vp.stubs import Eigensolver, exact, inner_optimizer

PROPERTY = "C26"
LEVEL = "exploration"
RULE = (
    "random problems at and around the borders of the documented classes (one variable, constraint "
    "or coefficient outside) offered to every optimizer and to the QUBO converter; message, answer "
    "and the behaviour of solve compared with the class, with every sub-solver recorded; "
    "non-trivial: a problem that some optimizer takes and another refuses; distinct by problem"
)
CASES = {"quick": 3620, "thorough": 43440}
OPTIMIZERS = [
    "qubo-converter",
    "minimum-eigen",
    "recursive",
    "grover",
    "warm-start",
    "cobyla",
    "slsqp",
    "goemans-williamson",
    "admm",
    "cplex",
]
REQUIRED = {"inside": 2000, "outside": 2000, "solved": 400, "refused": 1500}
REQUIRED.update({"refused:" + o: 25 for o in OPTIMIZERS if o != "cplex"})
REQUIRED.update({"solved:" + o: 8 for o in OPTIMIZERS})
ASSUMPTIONS = ["CPLEX takes every problem", "solve of compatible problems on a sample only"]


class Ran(Exception):
    """A sub-solver was asked although the problem is incompatible."""


def classify(ref):
    """Which optimizers the documentation says can take the problem."""
    types = {v.type for v in ref.vars}
    whole = all(c.denominator == 1 for con in ref.lcons for c in con.lin.values())
    qubo = C not in types and not ref.qcons and whole
    mixed = any(
        (ref.vars[i].type == C) != (ref.vars[j].type == C) and v for (i, j), v in ref.quad.items()
    )
    res = {o: qubo for o in OPTIMIZERS[:5]}
    res.update({o: types == {C} for o in ("cobyla", "slsqp")})
    res["goemans-williamson"] = types == {B}
    res["admm"] = not mixed
    res["cplex"] = True
    return res


def make(rng):
    base = rng.choice([(B,), (B,), (B, I), (I,), (C,), (C,), (B, C), (B, I, C)])
    ref = gen.qp(
        rng,
        n=rng.choice([1, 2, 3, 4]),
        types=base,
        max_lin=2,
        max_quad=rng.choice([0, 0, 0, 1]),
        width=3,
        con_style=rng.choice(["small", "sparse"]),
        max_points=64,
    )
    if rng.random() < 0.25:
        # an almost right coefficient
        con = gen.constraint(rng, ref, "frac", False, "small")
        i = rng.choice(sorted(con.lin))
        con.lin[i] += rng.choice([F(1, 2), F(-1, 4), F(1, 1024), F(0)])
        con.rhs = F(rng.choice([1, 2, 5]), rng.choice([1, 2]))
        ref.lcons.insert(rng.randint(0, len(ref.lcons)), con)
    if rng.random() < 0.3:
        # drop or keep single products over the border
        keep = rng.random() < 0.5
        ref.quad = {
            (i, j): v
            for (i, j), v in ref.quad.items()
            if keep or (ref.vars[i].type == C) == (ref.vars[j].type == C)
        }
    return ref


class Counting(QuantumInstance):
    def __init__(self, log):
        super().__init__(BasicAer.get_backend("statevector_simulator"))
        self.log = log

    def execute(self, *args, **kwargs):
        self.log.append("circuit")
        return super().execute(*args, **kwargs)


def optimizer(rng, which, log):
    """The optimizer, with sub-solvers that log their calls."""

    def eigen():
        choose = exact(rng)

        def logged(n, energies):
            log.append("eigensolver")
            return choose(n, energies)

        return Eigensolver(rng, logged)

    def inner(value=None):
        def decide(sub):
            log.append("inner")
            return [max(v.lb, -5) if value is None else value for v in sub.vars], None

        return inner_optimizer(decide)

    if which == "minimum-eigen":
        return MinimumEigenOptimizer(eigen())
    if which == "recursive":
        return RecursiveMinimumEigenOptimizer(
            MinimumEigenOptimizer(eigen()), min_num_vars=1, min_num_vars_optimizer=inner()
        )
    if which == "grover":
        return GroverOptimizer(4, num_iterations=1, quantum_instance=Counting(log))
    if which == "warm-start":
        return WarmStartQAOAOptimizer(
            pre_solver=inner(0.5),
            relax_for_pre_solver=True,
            qaoa=QAOA(quantum_instance=Counting(log)),
            num_initial_solutions=1,
        )
    if which == "cobyla":
        return CobylaOptimizer(maxfun=40)
    if which == "slsqp":
        return SlsqpOptimizer(iter=20)
    if which == "goemans-williamson":
        return GoemansWilliamsonOptimizer(num_cuts=2, seed=1)
    if which == "admm":
        return ADMMOptimizer(
            qubo_optimizer=inner(),
            continuous_optimizer=inner(),
            params=ADMMParameters(maxiter=2, three_block=rng.random() < 0.5),
        )
    if which == "cplex":
        return CplexOptimizer()
    return QuadraticProgramToQubo()


def solvable(rng, which, ref):
    """Whether to solve: cheap, and no method-specific reason to fail."""
    if which == "grover":
        if ref.lcons or any(v.type != B for v in ref.vars):
            return False
        coefs = [ref.const] + list(ref.lin.values()) + list(ref.quad.values())
        return sum(abs(c) for c in coefs) <= 6 and all(c.denominator == 1 for c in coefs)
    if which == "warm-start":
        return not ref.cons and all(v.type == B for v in ref.vars) and rng.random() < 0.3
    if which in ("recursive", "minimum-eigen"):
        return not any(c.sense != "==" for c in ref.lcons)
    if which == "slsqp":
        return all(v.lb < v.ub for v in ref.vars) and not ref.qcons
    if which == "cobyla":
        return not ref.qcons
    if which == "cplex":
        return not ref.qcons and all(
            {ref.vars[i].type, ref.vars[j].type} == {B} for i, j in ref.quad
        )
    if which == "goemans-williamson":
        return not ref.cons and ref.n > 1
    if which == "admm":
        return not ref.qcons and any(v.type == C for v in ref.vars) and rng.random() < 0.5
    return True


def run_case(rng, mon, k, tier):
    ref = make(rng)
    qp = build(ref, rng)
    allowed = classify(ref)
    before = read(qp).key()
    mon.note(ref)
    for which in OPTIMIZERS:
        log = []
        opt = optimizer(rng, which, log)
        inside = allowed[which]
        text = "{} {}".format(which, ref)
        msg = opt.get_compatibility_msg(qp)
        said = opt.is_compatible(qp)
        mon.event("inside" if inside else "outside")
        mon.check(isinstance(msg, str) and isinstance(said, bool), "kind-of-answer", text)
        mon.equal(said, msg == "", "answer-and-message", text + msg)
        mon.equal(said, inside, "announced-compatible" if said else "announced-incompatible", text)
        mon.equal(log, [], "solver-ran-on-announcement", text)
        run = opt.convert if which == "qubo-converter" else opt.solve
        if not inside:
            mon.event("refused")
            mon.event("refused:" + which)
            mon.raises(QiskitOptimizationError, lambda run=run: run(qp), "not-refused", text)
            mon.equal(log, [], "solver-ran", text)
        elif solvable(rng, which, ref):
            mon.event("solved")
            mon.event("solved:" + which)
            res = run(qp)
            mon.check(res is not None, "no-result", text)
    mon.equal(read(qp).key(), before, "problem-changed", repr(ref))
    if len(set(allowed.values())) > 1:
        mon.seen(ref.key())
    if k < 3:
        mon.sample({"problem": repr(ref)[:300], "inside": [o for o in allowed if allowed[o]]})
