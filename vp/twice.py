"""Runs seeded scripts and prints what came out; compared across processes by C29.

python -m vp.twice SEED FIRST COUNT
"""
import hashlib
import json
import random
import sys


def num(v):
    if v is None:
        return None
    v = complex(v)
    text = "{:.9g}".format(v.real + 0.0)
    return text if abs(v.imag) < 1e-12 else text + "{:+.9g}j".format(v.imag)


def nums(x):
    return None if x is None else [num(v) for v in x]


def result(res):
    out = [
        type(res).__name__,
        nums(res.x),
        num(res.fval),
        str(res.status),
        list(res.variable_names),
        [(nums(s.x), num(s.fval), num(s.probability), str(s.status)) for s in res.samples or []],
    ]
    raw = getattr(res, "raw_samples", None)
    if raw:
        out.append([(nums(s.x), num(s.fval), num(s.probability)) for s in raw])
    rep = getattr(res, "replacements", None)
    if rep:
        out.append(repr(list(rep.items())))
    return out


def program(qp):
    from vp.ref import read

    return [
        repr(read(qp).key()),
        list(qp.variables_index.items()),
        list(qp.linear_constraints_index.items()),
        list(qp.quadratic_constraints_index.items()),
        list(qp.objective.linear.to_dict(use_name=True).items()),
        [repr(k) for k in qp.objective.quadratic.to_dict(use_name=True)],
    ]


def convert(rng):
    from qiskit_optimization.converters import (
        InequalityToEquality,
        IntegerToBinary,
        LinearEqualityToPenalty,
        QuadraticProgramToQubo,
    )
    from vp.checks.c10 import problem
    from vp.ref import build

    ref = problem(rng, 9)
    qp = build(ref, rng)
    given = repr(ref.key())
    which = rng.randrange(4)
    if which == 0:
        chain = [InequalityToEquality(), IntegerToBinary(), LinearEqualityToPenalty()]
    elif which == 1:
        chain = [QuadraticProgramToQubo()]
    elif which == 2:
        chain = [IntegerToBinary(), InequalityToEquality(mode="auto")]
    else:
        chain = [InequalityToEquality(mode=rng.choice(["integer", "auto"]))]
    out = []
    for conv in chain:
        qp = conv.convert(qp)
        out.append(program(qp))
    x = [rng.randint(0, 1) for _ in range(qp.get_num_vars())]
    for conv in reversed(chain):
        x = list(conv.interpret(x))
    return given, out + [nums(x)]


def exchange(rng):
    from qiskit_optimization import QuadraticProgram
    from vp import gen
    from vp.ref import build

    ref = gen.qp(rng, n=rng.choice([1, 2, 3, 5, 8]))
    for i in range(ref.n):
        ref.lin.setdefault(i, 1)
    qp = build(ref, rng)
    back = QuadraticProgram()
    back.from_docplex(qp.to_docplex())
    point = [float(v) for v in gen.any_point(rng, ref)]
    _, bad_v, bad_c = qp.get_feasibility_info(point)
    out = [
        program(qp),
        program(back),
        qp.export_as_lp_string(),
        [v.name for v in bad_v],
        [c.name for c in bad_c],
    ]
    # substitute some variables
    names = [v.name for v in ref.vars]
    rng.shuffle(names)
    half = len(names) // 2
    const = {nm: 0 for nm in names[: half // 2]}
    var = {nm: (names[-1], rng.choice([1, -1, 2])) for nm in names[half // 2 : half]}
    out.append(program(qp.substitute_variables(const, var)))
    return repr(ref.key()), out


def ising(rng):
    from qiskit_optimization import QuadraticProgram
    from vp import gen
    from vp.ref import build

    ref = gen.qp(rng, n=rng.choice([2, 3, 4, 6]), types=("B",), max_lin=0, max_quad=0)
    ref.lin.setdefault(0, 3)
    qp = build(ref, rng)
    op, offset = qp.to_ising()
    back = QuadraticProgram()
    back.from_ising(op, offset, linear=rng.random() < 0.5)
    return repr(ref.key()), [str(op), num(offset), program(back)]


def application(rng):
    import networkx as nx
    from qiskit_optimization import applications as apps

    words = ["w{}{}".format(rng.choice("abcdefgh"), i) for i in range(8)]
    rng.shuffle(words)
    n = rng.choice([2, 3, 4, 5])
    kind = rng.choice(
        "Maxcut VertexCover StableSet Clique GraphPartition Tsp VehicleRouting ExactCover "
        "SetPacking Knapsack NumberPartition random random".split()
    )
    out = [kind]
    if kind == "random":
        s = rng.randrange(1000)
        for g in (
            apps.Tsp.create_random_instance(n, seed=s).graph,
            apps.VehicleRouting.create_random_instance(n, seed=s).graph,
        ):
            out.append([repr(list(g.nodes(data=True))), repr(list(g.edges(data=True)))])
        return str((kind, n, s)), out
    if kind in ("ExactCover", "SetPacking"):
        sets = [rng.sample(words, rng.randint(1, 3)) for _ in range(rng.randint(1, 5))]
        given = sets
        app = getattr(apps, kind)(sets)
    elif kind == "Knapsack":
        given = [[rng.randint(1, 5) for _ in range(n)] for _ in range(2)]
        app = apps.Knapsack(given[0], given[1], 6)
    elif kind == "NumberPartition":
        given = [rng.randint(1, 9) for _ in range(n)]
        app = apps.NumberPartition(given)
    else:
        graph = nx.Graph()
        nodes = list(range(n))
        graph.add_nodes_from(nodes)
        full = kind in ("Tsp", "VehicleRouting")
        for i in range(n):
            for j in range(i):
                if full or rng.random() < 0.7:
                    graph.add_edge(nodes[i], nodes[j], weight=rng.randint(1, 9))
        given = repr(list(graph.edges(data=True)))
        if kind == "VehicleRouting":
            app = apps.VehicleRouting(graph, num_vehicles=rng.choice([1, 2]), depot=0)
        elif kind == "Clique":
            app = apps.Clique(graph, rng.choice([None, 2]))
        else:
            app = getattr(apps, kind)(graph)
    qp = app.to_quadratic_program()
    out.append(program(qp))
    x = [rng.randint(0, 1) for _ in range(qp.get_num_vars())]
    if kind != "Tsp":
        try:
            out.append(repr(app.interpret(x)))
        except Exception as ex:  # pylint: disable=broad-except
            out.append(type(ex).__name__)
    return str((kind, given)), out


def solve(rng):
    import numpy as np
    from qiskit_optimization.algorithms import CobylaOptimizer, SlsqpOptimizer

    from vp import menu
    from vp.checks.c11 import taken
    from vp.ref import build

    which = menu.kind(rng)
    seed = rng.randrange(10 ** 6)
    ref = menu.problem(rng, which)
    given = repr((which, seed, ref.key()))
    if not taken(ref, which):
        return given, None
    qp = build(ref, rng)
    opt = menu.make(which, seed)
    if which in ("cobyla", "slsqp"):
        cls = CobylaOptimizer if which == "cobyla" else SlsqpOptimizer
        opt = cls(trials=3, clip=5.0)
    menu.reseed(seed)
    np.random.seed(seed)
    return given, [which, result(opt.solve(qp))]


def quantum(rng):
    """Simulators with their seeds set."""
    from qiskit import BasicAer
    from qiskit.algorithms import QAOA
    from qiskit.algorithms.optimizers import COBYLA
    from qiskit.utils import QuantumInstance
    from qiskit_optimization.algorithms import (
        GoemansWilliamsonOptimizer,
        GroverOptimizer,
        MinimumEigenOptimizer,
        WarmStartQAOAOptimizer,
    )

    from vp import gen, menu
    from vp.ref import build

    seed = rng.randrange(10 ** 6)
    what = rng.choice(["qaoa", "grover", "grover", "warm-start", "cuts"])
    ref = gen.qp(
        rng, n=rng.choice([2, 3]), types=("B",), max_lin=0, max_quad=0, style="small"
    )
    ref.lin.setdefault(0, 1)
    if what == "cuts":
        ref = menu.problem(rng, "goemans-williamson")
    qp = build(ref, rng)
    menu.reseed(seed)
    inst = QuantumInstance(
        BasicAer.get_backend("qasm_simulator"), shots=50, seed_simulator=seed, seed_transpiler=seed
    )
    if what == "grover":
        opt = GroverOptimizer(5, num_iterations=2, quantum_instance=inst)
    elif what == "cuts":
        opt = GoemansWilliamsonOptimizer(num_cuts=5, seed=seed)
    else:
        qaoa = QAOA(COBYLA(maxiter=2), quantum_instance=inst, initial_point=[0.3, 0.7])
        if what == "qaoa":
            opt = MinimumEigenOptimizer(qaoa)
        else:
            opt = WarmStartQAOAOptimizer(
                menu.inner_optimizer(menu.relaxed(seed, 2)), True, qaoa, num_initial_solutions=2
            )
    return repr((what, seed, ref.key())), [what, result(opt.solve(qp))]


KINDS = [convert, exchange, ising, application, application, solve, solve, solve, convert, quantum]


def run(seed, j):
    fun = KINDS[j % len(KINDS)]
    rng = random.Random("{}|{}".format(seed, j))
    given, out = fun(rng)
    return fun.__name__, given, json.dumps(out)


def main():
    from vp.core import use_repo

    use_repo()
    seed, first, count = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    lines = []
    for j in range(first, first + count):
        try:
            name, given, out = run(seed, j)
            again = run(seed, j)[2]
        except Exception as ex:  # pylint: disable=broad-except
            name, given, out = KINDS[j % len(KINDS)].__name__, "?", "error " + repr(ex)
            again = out
        rec = [name, hashlib.sha256(given.encode()).hexdigest()[:16], given[:400], out, again]
        lines.append(json.dumps(rec))
    with open(sys.argv[4], "w", encoding="utf8") as file:
        file.write("\n".join(lines))


if __name__ == "__main__":
    main()
