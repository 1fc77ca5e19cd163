"""C11: inputs are never modified and reused objects remember nothing."""
import copy
import random

import networkx as nx
import numpy as np
from docplex.mp.model import Model
from qiskit.opflow import I as PI, Z as PZ
from qiskit_optimization import QiskitOptimizationError, QuadraticProgram
from qiskit_optimization.applications import (
    Clique,
    ExactCover,
    GraphPartition,
    Knapsack,
    Maxcut,
    NumberPartition,
    SetPacking,
    StableSet,
    Tsp,
    VehicleRouting,
    VertexCover,
)
from qiskit_optimization.converters import (
    InequalityToEquality,
    IntegerToBinary,
    LinearEqualityToPenalty,
    QuadraticProgramToQubo,
)

from vp import gen, menu
from vp.checks.c10 import problem as discrete
from vp.ref import B, C, I, build, lin_arg, quad_arg, read
from vp.results import points_equal

PROPERTY = "C11"
LEVEL = "exploration"
RULE = (
    "sequences of problems put through one converter, optimizer or application; the program read "
    "completely before and after every operation, arguments compared with copies; answers of the "
    "used object compared with those of a fresh one with equal settings, also after refused or "
    "failed problems; results and inputs edited afterwards to reveal shared state; non-trivial: an "
    "object used on at least two problems; distinct by kind and problems"
)
CASES = {"quick": 1300, "thorough": 27960}
REQUIRED = {
    "reads": 4000,
    "converter": 250,
    "converter:edited-output": 200,
    "converter:edited-input": 200,
    "optimizer": 250,
    "optimizer:reused": 300,
    "after-refusal": 100,
    "operations": 1000,
    "arguments": 200,
    "application": 150,
}
REQUIRED.update({"reused:" + k: 10 for k in menu.KINDS})


def unchanged(mon, qp, before, what, text):
    mon.event("reads")
    mon.equal(whole(qp), before, "modified:" + what, text)


def whole(qp):
    """Everything a user can see of a program."""
    return (read(qp).key(), qp.name, qp.status)


# ---------------------------------------------------------------- converters


CONVERTERS = {
    "IntegerToBinary": lambda mode: IntegerToBinary(),
    "InequalityToEquality": lambda mode: InequalityToEquality(mode),
    "LinearEqualityToPenalty": lambda mode: LinearEqualityToPenalty(),
    "QuadraticProgramToQubo": lambda mode: QuadraticProgramToQubo(),
}


def suited(rng, kind):
    if kind == "IntegerToBinary":
        return gen.qp(rng, n=rng.choice([1, 2, 3, 4]), max_lin=2, max_quad=1, width=6)
    ref = discrete(rng, 9)
    if kind == "LinearEqualityToPenalty":
        for con in ref.lcons:
            con.sense = "=="
    return ref


def refused(rng, kind):
    """A problem that the converter does not take, or None."""
    ref = discrete(rng, 6)
    if kind == "LinearEqualityToPenalty":
        con = gen.constraint(rng, ref, "bad", False, "small", senses=("<=", ">="))
        ref.lcons.append(con)
        return ref
    if kind == "QuadraticProgramToQubo":
        ref.qcons.append(gen.constraint(rng, ref, "bad", True, "small"))
        return ref
    return None


def edit(rng, qp):
    """Change everything that can be changed."""
    if qp.get_num_vars():
        qp.objective.linear[0] = 77
        qp.objective.quadratic[0, 0] = -33
        for con in qp.linear_constraints:
            con.linear[0] = 5
            con.rhs = 99
        for con in qp.quadratic_constraints:
            con.linear[0] = 5
            con.quadratic[0, 0] = 9
            con.rhs = 98
        for var in qp.variables:
            if var.vartype == var.Type.CONTINUOUS:
                var.upperbound = var.upperbound + 1
    qp.objective.constant = 12345
    if rng.random() < 0.5:
        qp.binary_var("added_later")
    if rng.random() < 0.3:
        qp.name = "edited"
    if rng.random() < 0.3:
        qp.clear()


def converter(rng, mon):
    mon.event("converter")
    kind = rng.choice(sorted(CONVERTERS))
    mode = rng.choice(["integer", "auto", "integer"])
    used = CONVERTERS[kind](mode)
    refs = []
    for step in range(rng.choice([2, 3])):
        if rng.random() < 0.3:
            bad = refused(rng, kind)
            if bad is not None:
                qp = build(bad, rng)
                before = whole(qp)
                mon.event("after-refusal")
                mon.raises(QiskitOptimizationError, lambda: used.convert(qp), "not-refused", kind)
                unchanged(mon, qp, before, kind, repr(bad))
        ref = suited(rng, kind)
        refs.append(ref.key())
        text = "{} step {} {}".format(kind, step, ref)
        mon.note(text)
        qp = build(ref, rng)
        before = whole(qp)
        got = used.convert(qp)
        unchanged(mon, qp, before, kind, text)
        fresh = CONVERTERS[kind](mode)
        want = fresh.convert(build(ref, rng, plain=True))
        first = whole(got)
        mon.equal(read(got).key(), read(want).key(), "used-converter", text)
        n = got.get_num_vars()
        points = []
        for _ in range(3):
            points.append([float(rng.randint(0, 1)) for _ in range(n)])
        readings = []
        for y in points:
            arg = np.array(y) if rng.random() < 0.5 else list(y)
            keep = copy.deepcopy(arg)
            a = used.interpret(arg)
            mon.check(points_equal(arg, keep), "modified:interpret-argument", text)
            mon.check(points_equal(a, fresh.interpret(keep)), "used-interpret", text)
            readings.append([float(v) for v in a])
        if hasattr(used, "penalty"):
            mon.equal(used.penalty, fresh.penalty, "used-penalty", text)
        # the result lives apart from the input
        mon.event("converter:edited-input")
        edit(rng, qp)
        mon.equal(whole(got), first, "output-follows-input", text)
        for y, a in zip(points, readings):
            mon.check(points_equal(used.interpret(np.array(y)), a), "reading-follows-input", text)
        mon.event("converter:edited-output")
        qp = build(ref, rng)
        before = whole(qp)
        got = used.convert(qp)
        edit(rng, got)
        unchanged(mon, qp, before, kind + ":through-output", text)
        mon.equal(whole(used.convert(qp)), first, "converter-follows-output", text)
    mon.seen((kind, mode, refs))


# ---------------------------------------------------------------- optimizers


def facts(res):
    """What two results have to agree in."""
    return res.x, res.fval, res.status, list(res.variable_names), res.samples


def agree(mon, got, want, text):
    mon.equal(got.status, want.status, "used-status", text)
    mon.equal(list(got.variable_names), list(want.variable_names), "used-names", text)
    mon.equal(got.x is None, want.x is None, "used-point", text)
    if got.x is None:
        return
    mon.check(
        points_equal(got.x, want.x, 1e-9),
        "used-point",
        lambda: "{} instead of {} {}".format(got.x, want.x, text),
    )
    mon.close(got.fval, want.fval, "used-value", text, 1e-9)
    mon.equal(len(got.samples), len(want.samples), "used-samples", text)
    for s, t in zip(got.samples, want.samples):
        mon.check(
            points_equal(s.x, t.x, 1e-9)
            and abs(s.probability - t.probability) < 1e-9
            and s.status == t.status,
            "used-sample",
            lambda: "{} instead of {} {}".format(s, t, text),
        )
    for name in (
        "raw_samples replacements history threshold intermediate_fval operation_counts "
        "n_input_qubits fx its imode smode"
    ).split():
        a, b = getattr(got, name, None), getattr(want, name, None)
        mon.equal(a is None, b is None, "used-" + name, text)
        if name in ("threshold", "intermediate_fval", "its", "imode", "n_input_qubits"):
            mon.equal(a, b, "used-" + name, text)
        elif name in ("raw_samples", "operation_counts") and a is not None:
            mon.equal(len(a), len(b), "used-" + name, text)
        elif name == "replacements" and a is not None:
            mon.equal(a, b, "used-" + name, text)
        elif name == "history" and a is not None:
            mon.equal(len(a[0]), len(b[0]), "used-history", text)
            mon.equal(a[1] is None, b[1] is None, "used-history", text)
    state, other = getattr(got, "state", None), getattr(want, "state", None)
    if state is not None and hasattr(state, "merits"):
        mon.check(
            points_equal(state.merits, other.merits, 1e-6)
            and points_equal(state.residuals, other.residuals, 1e-6),
            "used-trace",
            text,
        )


def taken(ref, which):
    return which != "cplex" or not any(
        I in (ref.vars[i].type, ref.vars[j].type) for i, j in ref.quad
    )


def optimizer(rng, mon):
    which = menu.kind(rng)
    seed = rng.randrange(10 ** 6)
    used = menu.make(which, seed)
    mon.event("optimizer")
    refs = []
    for step in range(rng.choice([2, 2, 3])):
        if which in ("minimum-eigen", "recursive", "warm-start", "grover") and rng.random() < 0.2:
            bad = refused(rng, "QuadraticProgramToQubo")
            qp = build(bad, rng)
            before = whole(qp)
            mon.event("after-refusal")
            mon.raises(QiskitOptimizationError, lambda: used.solve(qp), "not-refused", which)
            unchanged(mon, qp, before, which, repr(bad))
        ref = menu.problem(rng, which)
        if not taken(ref, which):
            continue
        refs.append(ref.key())
        text = "{} seed {} step {} {}".format(which, seed, step, ref)
        mon.note(text)
        qp = build(ref, rng)
        before = whole(qp)
        used.is_compatible(qp)
        unchanged(mon, qp, before, which + ":is_compatible", text)
        menu.reseed(seed)
        got = used.solve(qp)
        unchanged(mon, qp, before, which, text)
        fresh = menu.make(which, seed)
        menu.reseed(seed)
        want = fresh.solve(build(ref, random.Random(1), plain=True))
        if step:
            mon.event("optimizer:reused")
            mon.event("reused:" + which)
        agree(mon, got, want, text)
        if rng.random() < 0.3:
            menu.reseed(seed)
            agree(mon, used.solve(qp), want, "again " + text)
            unchanged(mon, qp, before, which, text)
    if len(refs) > 1:
        mon.seen((which, refs))


# ---------------------------------------------------------------- single operations


def operations(rng, mon):
    ref = gen.qp(rng, n=rng.choice([1, 2, 3, 4, 5]))
    qp = build(ref, rng)
    before = whole(qp)
    text = repr(ref)
    x = [float(v) for v in gen.some_point(rng, ref)]
    names = [v.name for v in ref.vars]
    points = [x, np.array(x), dict(enumerate(x)), dict(zip(names, x))]
    for p in points:
        keep = copy.deepcopy(p)
        for expr in [qp.objective] + qp.linear_constraints + qp.quadratic_constraints:
            expr.evaluate(p)
            if hasattr(expr, "evaluate_gradient"):
                expr.evaluate_gradient(p)
            expr.linear.evaluate(p)
            if hasattr(expr, "quadratic"):
                expr.quadratic.evaluate(p)
                expr.quadratic.evaluate_gradient(p)
        mon.event("operations")
        mon.check(
            type(p) is type(keep) and (np.array_equal(p, keep) if not isinstance(p, dict) else p == keep),
            "modified:point",
            text,
        )
    unchanged(mon, qp, before, "evaluate", text)
    for p in points[:2]:
        qp.is_feasible(p)
        qp.get_feasibility_info(p)
    unchanged(mon, qp, before, "feasibility", text)
    lp = qp.export_as_lp_string()
    unchanged(mon, qp, before, "export_as_lp_string", text)
    mon.equal(qp.export_as_lp_string(), lp, "exported-twice", text)
    qp.to_docplex()
    unchanged(mon, qp, before, "to_docplex", text)
    str(qp), repr(qp)
    qp.objective.linear.to_dict(use_name=True)
    qp.objective.quadratic.to_dict(symmetric=True)
    qp.objective.quadratic.to_array(symmetric=True)
    arr = qp.objective.linear.to_array()
    arr += 1
    dic = qp.objective.quadratic.to_dict()
    dic[0, 0] = 1e6
    unchanged(mon, qp, before, "read-back", text)
    if ref.n > 1:
        i, j, *_ = rng.sample(range(ref.n), 2)
        const = {names[i]: x[i]} if rng.random() < 0.5 else {i: x[i]}
        var = {names[j]: (names[i], 1)} if rng.random() < 0.5 else {j: (i, -2)}
        const, var = (const, None) if rng.random() < 0.5 else (None, var)
        keep = copy.deepcopy((const, var))
        res = qp.substitute_variables(constants=const, variables=var)
        mon.equal((const, var), keep, "modified:substitution", text)
        unchanged(mon, qp, before, "substitute_variables", text)
        first = whole(res)
        edit(rng, res)
        unchanged(mon, qp, before, "substitute_variables:through-output", text)
        res = qp.substitute_variables(constants=const, variables=var)
        mon.equal(whole(res), first, "substituted-twice", text)
    for what in ("refused", "allowed"):
        if what == "allowed":
            ref = gen.qp(rng, n=rng.choice([1, 2, 4]), types=(B,), max_lin=0, max_quad=0)
            qp = build(ref, rng)
            before = whole(qp)
        try:
            op, off = qp.to_ising()
            again, off2 = qp.to_ising()
            mon.check(off == off2 and op.equals(again), "to_ising-twice", repr(ref))
        except QiskitOptimizationError:
            pass
        unchanged(mon, qp, before, "to_ising", repr(ref))
    model = Model("m")
    a, b, c = model.binary_var("a"), model.integer_var(0, 5, "b"), model.continuous_var(0, 3, "c")
    model.minimize(a * b + 2 * c - b * b + 3)
    model.add_constraint(a + b <= rng.randint(1, 5), "k")
    shown = model.export_as_lp_string()
    loaded = QuadraticProgram()
    loaded.from_docplex(model)
    mon.equal(model.export_as_lp_string(), shown, "modified:model", shown)
    first = whole(loaded)
    edit(rng, loaded)
    loaded.from_docplex(model)
    mon.equal(whole(loaded), first, "loaded-twice", shown)
    op = 2.0 * (PZ ^ PI) - 0.5 * (PZ ^ PZ)
    keep = copy.deepcopy(op)
    loaded.from_ising(op, 1.5)
    mon.check(op.equals(keep), "modified:operator")
    loaded.from_ising(op, 1.5, linear=True)
    mon.check(op.equals(keep), "modified:operator")


def arguments(rng, mon):
    """Coefficients handed over are neither changed nor kept."""
    ref = gen.qp(rng, n=rng.choice([1, 2, 3, 4]), max_lin=0, max_quad=0)
    names = [v.name for v in ref.vars]
    qp = build(ref, rng, plain=True)
    lin = gen.lin(rng, ref.n, "small")
    quad = gen.quad(rng, ref.n, "small")
    lin_a, quad_a = lin_arg(rng, lin, names), quad_arg(rng, quad, names)
    keep = copy.deepcopy((lin_a, quad_a))
    how = rng.choice(["minimize", "linear", "quadratic", "assign"])
    if how == "minimize":
        (qp.minimize if rng.random() < 0.5 else qp.maximize)(1, lin_a, quad_a)
    elif how == "linear":
        qp.linear_constraint(lin_a, "<=", 3)
    elif how == "quadratic":
        qp.quadratic_constraint(lin_a, quad_a, ">=", 1)
    else:
        qp.objective.linear = lin_a
        qp.objective.quadratic = quad_a
    mon.event("arguments")
    text = "{} {} {} {}".format(how, lin_a, quad_a, ref)

    def same(a, b):
        if hasattr(a, "toarray"):
            return np.array_equal(a.toarray(), b.toarray())
        return np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b

    mon.check(same(lin_a, keep[0]) and same(quad_a, keep[1]), "modified:coefficients", text)
    before = whole(qp)
    for arg, key in ((lin_a, 0), (quad_a, (0, 0))):
        try:
            if isinstance(arg, dict):
                for k in list(arg):
                    arg[k] = 4321.0
                arg[key] = 1234.0
            elif isinstance(arg, list):
                arg[0] = [1234.0] * ref.n if isinstance(arg[0], list) else 1234.0
            elif hasattr(arg, "toarray"):
                arg[0, 0] = 1234.0
            elif arg is not None:
                arg += 99
        except (TypeError, IndexError, NotImplementedError, np.core._exceptions.UFuncTypeError):
            pass
    unchanged(mon, qp, before, "through-argument", text)


# ---------------------------------------------------------------- applications


def application(rng, mon):
    mon.event("application")
    n = rng.choice([3, 3, 4])
    graph = nx.Graph()
    graph.add_nodes_from(range(n))
    for i in range(n):
        for j in range(i):
            graph.add_edge(i, j, weight=rng.randint(1, 9))
    sparse = graph.copy()
    for e in list(graph.edges):
        if rng.random() < 0.4:
            sparse.remove_edge(*e)
    lists = [[rng.randint(1, 4) for _ in range(rng.randint(1, 3))] for _ in range(3)]
    lists = [sorted(set(s)) for s in lists]
    numbers = [rng.randint(1, 9) for _ in range(n)]
    values = [rng.randint(1, 9) for _ in range(n)]
    makers = {
        "Maxcut": lambda: (Maxcut, [sparse]),
        "VertexCover": lambda: (VertexCover, [sparse]),
        "StableSet": lambda: (StableSet, [sparse]),
        "Clique": lambda: (Clique, [sparse, rng.choice([None, 2])]),
        "GraphPartition": lambda: (GraphPartition, [sparse]),
        "Tsp": lambda: (Tsp, [graph]),
        "VehicleRouting": lambda: (VehicleRouting, [graph, 2, rng.randrange(n)]),
        "Knapsack": lambda: (Knapsack, [values, numbers, 10]),
        "ExactCover": lambda: (ExactCover, [lists]),
        "SetPacking": lambda: (SetPacking, [lists]),
        "NumberPartition": lambda: (NumberPartition, [numbers]),
    }
    name = rng.choice(sorted(makers))
    cls, args = makers[name]()
    if rng.random() < 0.3 and isinstance(args[0], nx.Graph):
        args = [nx.to_numpy_array(args[0])] + args[1:]
    keep = copy.deepcopy(args)
    text = "{} {}".format(name, args)

    def intact():
        for a, b in zip(args, keep):
            if isinstance(a, nx.Graph):
                same = list(a.nodes(data=True)) == list(b.nodes(data=True)) and list(
                    a.edges(data=True)
                ) == list(b.edges(data=True))
            elif isinstance(a, np.ndarray):
                same = np.array_equal(a, b)
            else:
                same = a == b
            mon.check(same, "modified:instance", text)

    app = cls(*args)
    intact()
    qp = app.to_quadratic_program()
    intact()
    first = whole(qp)
    mon.equal(whole(app.to_quadratic_program()), first, "modelled-twice", text)
    edit(rng, app.to_quadratic_program())
    mon.equal(whole(app.to_quadratic_program()), first, "model-follows-edit", text)
    for _ in range(4):
        if name == "Tsp":
            perm = rng.sample(range(n), n)
            x = [0.0] * n * n
            for p, i in enumerate(perm):
                x[i * n + p] = 1.0
        else:
            x = [float(rng.randint(0, 1)) for _ in range(qp.get_num_vars())]
        arg = np.array(x)
        got = None
        try:
            got = app.interpret(arg)
        except Exception:  # pylint: disable=broad-except
            mon.event("not-interpretable")  # decided by C19 to C21
        mon.check(points_equal(arg, x), "modified:interpreted-point", text)
        if got is not None:
            mon.equal(repr(app.interpret(arg)), repr(got), "interpreted-twice", text)
            mon.equal(repr(cls(*keep).interpret(np.array(x))), repr(got), "used-interpret", text)
    intact()
    mon.equal(whole(app.to_quadratic_program()), first, "model-follows-interpret", text)


def run_case(rng, mon, k, tier):
    turn = k % 5
    if turn in (0, 1):
        converter(rng, mon)
    if turn in (2, 3, 4):
        optimizer(rng, mon)
    if turn in (0, 2):
        operations(rng, mon)
    if turn in (1, 3):
        for _ in range(2):
            arguments(rng, mon)
        application(rng, mon)
    if k < 3:
        mon.sample({"case": k, "trace": mon.trace[:3]})
