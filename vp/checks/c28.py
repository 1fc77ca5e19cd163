"""C28: a failure inside a solve reaches the user and leaves nothing behind."""
import contextlib
import random

import cplex
import cvxpy
from qiskit import QiskitError
from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import MultiStartOptimizer, OptimizationResult
from qiskit_optimization.algorithms import OptimizationResultStatus as Status

from vp import menu, stubs
from vp.checks.c11 import agree, taken, unchanged, whole
from vp.ref import build
from vp.results import check_result

PROPERTY = "C28"
TECHNIQUE = "runtime monitoring with fault injection at the calls of collaborators"
LEVEL = "exploration"
RULE = (
    "every optimizer, with a fault injected at one of the calls it makes to the solver, backend or "
    "objective it relies on: an error of a random class (also an interrupt), or an answer without "
    "state or point; the program read completely before and after; the same optimizer then solves "
    "further problems and is compared with a fresh one; non-trivial: the fault struck; distinct by "
    "kind, position, class of fault and problem"
)
CASES = {"quick": 1400, "thorough": 16800}
REQUIRED = {"struck:error": 500, "struck:empty": 150, "struck:later": 150, "solved-after": 600}
REQUIRED.update({"struck:" + k: 15 for k in menu.KINDS})
REQUIRED["struck:multi-start"] = 15
ASSUMPTIONS = ["faults are those of the collaborators, not of the machine"]


class Multi(MultiStartOptimizer):
    """A multi-start optimizer whose local search is a collaborator."""

    def __init__(self):
        super().__init__(trials=3, clip=10.0)

    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        def search(x):
            stubs.come_up_empty(self)
            return x, ()

        return self.multi_start_solve(search, problem)


class Trouble:
    """Fails at the given call."""

    def __init__(self, at, error):
        self.at, self.error = at, error
        self.calls = 0
        self.struck = False

    def __call__(self, who):
        self.calls += 1
        if self.calls != self.at:
            return False
        self.struck = True
        if self.error is None:
            return True
        raise self.error


@contextlib.contextmanager
def injected(which, qp, trouble):
    """The collaborators of the optimizer fail as `trouble` says."""
    undo = []

    def replace(owner, name, get):
        old = owner.__dict__[name]
        undo.append((owner, name, old))
        setattr(owner, name, get(old))

    def failing(old):
        def call(*args, **kwargs):
            trouble(None)
            return old(*args, **kwargs)

        return call

    if which == "cplex":
        replace(cplex.Cplex, "solve", failing)
    elif which == "goemans-williamson":
        replace(cvxpy.Problem, "solve", failing)
    elif which in ("cobyla", "slsqp"):
        replace(type(qp.objective), "evaluate", failing)
    else:
        stubs.HOOK[0] = trouble
    try:
        yield
    finally:
        stubs.HOOK[0] = None
        for owner, name, old in undo:
            setattr(owner, name, old)


def chain(ex):
    """The error and everything it was raised from."""
    seen = []
    while ex is not None and ex not in seen:
        seen.append(ex)
        ex = ex.__cause__ or ex.__context__
    return seen


def error(rng, which):
    cls = rng.choice(
        [
            RuntimeError,
            ValueError,
            KeyError,
            QiskitError,
            QiskitOptimizationError,
            ZeroDivisionError,
            KeyboardInterrupt,
            MemoryError,
        ]
    )
    if which == "cplex" and rng.random() < 0.5:
        return cplex.exceptions.CplexSolverError("injected", None, 5002)
    if which == "goemans-williamson" and rng.random() < 0.5:
        return cvxpy.error.SolverError("injected")
    return cls("injected")


def make(which, seed):
    return Multi() if which == "multi-start" else menu.make(which, seed)


def run_case(rng, mon, k, tier):
    which = rng.choice(sorted(menu.KINDS) + ["multi-start"])
    seed = rng.randrange(10 ** 6)
    source = "slsqp" if which == "multi-start" else which
    ref = menu.problem(rng, source)
    if not taken(ref, which):
        return
    empty = which in ("minimum-eigen", "recursive", "admm", "warm-start") and rng.random() < 0.4
    at = rng.choice([1, 1, 2, 2, 3, 4, 7, 12])
    if which in ("cplex", "goemans-williamson", "minimum-eigen"):
        at = 1
    err = None if empty else error(rng, which)
    text = "{} seed {} {} at call {} of {}".format(which, seed, err, at, ref)
    mon.note(text)
    opt = make(which, seed)
    qp = build(ref, rng)
    before = whole(qp)
    trouble = Trouble(at, err)
    got = caught = None
    menu.reseed(seed)
    with injected(which, qp, trouble):
        try:
            got = opt.solve(qp)
        except BaseException as ex:  # pylint: disable=broad-except
            caught = ex
    if not trouble.struck:
        mon.event("not-struck")
        if caught is not None:
            raise caught
    else:
        mon.event("struck:" + ("empty" if empty else "error"))
        mon.event("struck:" + which)
        if at > 1:
            mon.event("struck:later")
        mon.seen((which, at, type(err).__name__, ref.key()))
        if caught is not None:
            mon.event("raised")
            if not empty:
                mon.check(err in chain(caught), "error-replaced", lambda: repr(caught) + text)
        elif which == "admm" and empty:
            # goes on without a warm start; the result still has to be true
            mon.check(
                got.x is None or all(v == v for v in got.x), "undefined-point", lambda: text
            )
            check_result(mon, got, ref, qp, text)
        else:
            mon.event("reported")
            mon.check(
                isinstance(got, OptimizationResult) and got.status == Status.FAILURE,
                "failure-hidden",
                lambda: "{} {}".format(got, text),
            )
            mon.check(
                got.x is None or len(got.x) == 0, "point-of-failure", lambda: text
            )
    unchanged(mon, qp, before, which, text)
    # the optimizer is as good as new
    for step in range(2):
        again = ref if step == 0 else menu.problem(rng, source)
        if not taken(again, which):
            continue
        mon.event("solved-after")
        where = "after {} on {}".format(text, again)
        other = qp if step == 0 else build(again, rng)
        menu.reseed(seed)
        res = opt.solve(other)
        menu.reseed(seed)
        want = make(which, seed).solve(build(again, random.Random(1), plain=True))
        agree(mon, res, want, where)
    unchanged(mon, qp, before, which, text)
    if k < 3:
        mon.sample({"case": text[:300], "outcome": repr(caught or got.status)})
