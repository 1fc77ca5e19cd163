"""C31: copies, pickles and edited programs behave as freshly built ones."""
import copy
import pickle
from fractions import Fraction as F

import networkx as nx
import numpy as np
from qiskit.algorithms import NumPyMinimumEigensolver
from qiskit_optimization import QiskitOptimizationError, QuadraticProgram
from qiskit_optimization.algorithms import (
    ADMMOptimizer,
    CobylaOptimizer,
    CplexOptimizer,
    GoemansWilliamsonOptimizer,
    MinimumEigenOptimizer,
    RecursiveMinimumEigenOptimizer,
    SlsqpOptimizer,
)
from qiskit_optimization.applications import (
    Clique,
    ExactCover,
    GraphPartition,
    Knapsack,
    Maxcut,
    NumberPartition,
    SetPacking,
    StableSet,
    Tsp,
    VehicleRouting,
    VertexCover,
)
from qiskit_optimization.problems.constraint import ConstraintSense
from qiskit_optimization.problems.quadratic_objective import ObjSense
from qiskit_optimization.problems.variable import VarType

from vp import gen, menu
from vp.checks.c10 import problem as discrete
from vp.checks.c11 import CONVERTERS, agree, edit, suited, taken, whole
from vp.ref import B, C, I, RefCon, RefVar, build, lin_arg, num, quad_arg, read, sense_arg
from vp.results import points_equal

PROPERTY = "C31"
LEVEL = "exploration"
RULE = (
    "programs reached by deepcopy, pickle, reloading, or by editing a program of other content that "
    "was evaluated, exported, converted and solved before; compared with one built afresh in "
    "evaluation, gradients, feasibility, export, Ising form, substitution, every converter and exact "
    "solvers; copies and originals edited to reveal shared state; converters, optimizers, results "
    "and applications copied in the middle of their use; non-trivial: a program that did not start "
    "with its final content; distinct by content and way"
)
CASES = {"quick": 3000, "thorough": 40000}
WAYS = ("deepcopy", "pickle", "edited", "cleared", "removed", "reloaded", "reread", "substituted")
REQUIRED = {
    "compared": 800,
    "independent": 300,
    "converter": 200,
    "optimizer": 150,
    "result": 300,
    "application": 150,
    "solved": 300,
    "ising": 100,
    "refused-alike": 100,
    "decimals": 80,
    "ruled-out": 80,
    "converted-alike": 800,
}
REQUIRED.update({"way:" + w: 50 for w in WAYS})
TYPES = {B: VarType.BINARY, I: VarType.INTEGER, C: VarType.CONTINUOUS}
SENSE = {"<=": ConstraintSense.LE, ">=": ConstraintSense.GE, "==": ConstraintSense.EQ}


# ---------------------------------------------------------------- what can be seen of a program


def expressions(qp):
    res = [qp.objective, qp.objective.linear, qp.objective.quadratic]
    for con in qp.linear_constraints:
        res += [con, con.linear]
    for con in qp.quadratic_constraints:
        res += [con, con.linear, con.quadratic]
    return res


def evaluations(qp, forms):
    res = []
    for x in forms:
        for expr in expressions(qp):
            res.append(float(expr.evaluate(x)))
            if hasattr(expr, "evaluate_gradient"):
                res.extend(float(v) for v in expr.evaluate_gradient(x))
    return res


def feasibility(qp, x):
    ok, bad_vars, bad_cons = qp.get_feasibility_info(x)
    return ok, qp.is_feasible(x), [v.name for v in bad_vars], [c.name for c in bad_cons]


def paulis(qp):
    try:
        op, offset = qp.to_ising()
    except QiskitOptimizationError:
        return None
    terms = {}
    for label, weight in pauli_terms(op):
        terms[label] = terms.get(label, 0) + complex(weight)
    return {k: v for k, v in terms.items() if abs(v) > 1e-12}, float(offset)


def pauli_terms(op):
    from qiskit.opflow import PauliOp, SummedOp

    scale = complex(op.coeff)
    if isinstance(op, SummedOp):
        for part in op.oplist:
            for label, weight in pauli_terms(part):
                yield label, scale * weight
    elif isinstance(op, PauliOp):
        yield op.primitive.to_label(), scale
    else:
        for label, weight in op.primitive.to_list():
            yield label, scale * complex(weight)


def converted(name, qp, points):
    conv = CONVERTERS[name]("integer")
    try:
        out = conv.convert(qp)
    except QiskitOptimizationError:
        return None, None, None
    n = out.get_num_vars()
    readings = [[float(v) for v in conv.interpret(np.array(p[:n]))] for p in points if len(p) >= n]
    return read(out).key(), readings, getattr(conv, "penalty", None)


def exercise(rng, qp):
    """Use everything once, so that whatever is remembered is there."""
    n = qp.get_num_vars()
    x = [float(rng.randint(0, 1)) for _ in range(n)]
    evaluations(qp, [x])
    qp.get_feasibility_info(x)
    qp.export_as_lp_string()
    qp.to_docplex()
    for expr in expressions(qp):
        if hasattr(expr, "to_array"):
            expr.to_array()
            expr.to_dict()
            if not n:
                continue
            if hasattr(expr, "evaluate_gradient") and len(expr.to_array().shape) == 2:
                expr.to_array(symmetric=True)
                expr.to_dict(symmetric=True, use_name=True)
    for name in CONVERTERS:
        try:
            CONVERTERS[name]("integer").convert(qp)
        except QiskitOptimizationError:
            pass
    paulis(qp)
    if n:
        try:
            qp.substitute_variables(constants={0: qp.get_variable(0).lowerbound})
        except QiskitOptimizationError:
            pass
    if rng.random() < 0.2 and CplexOptimizer().is_compatible(qp):
        try:
            CplexOptimizer().solve(qp)
        except QiskitOptimizationError:
            pass


def behave(rng, mon, got, want, ref, text):
    """The two programs cannot be told apart."""
    mon.event("compared")
    mon.equal(read(got).key(), read(want).key(), "content", text)
    mon.equal(got.status, want.status, "status", text)
    names = [v.name for v in ref.vars]
    for maker in (gen.some_point, gen.any_point):
        x = [float(v) for v in maker(rng, ref)]
        forms = [x, np.array(x), dict(zip(names, x)), dict(enumerate(x))]
        forms = [forms[0], rng.choice(forms[1:])]
        a, b = evaluations(got, forms), evaluations(want, forms)
        mon.check(points_equal(a, b, 1e-9), "evaluation", lambda: "{} {} {}".format(a, b, text))
        mon.equal(feasibility(got, x), feasibility(want, x), "feasibility", text)
    for a, b in zip(expressions(got), expressions(want)):
        mon.check(a.quadratic_program is got, "parent", text)
        if hasattr(a, "to_array"):
            mon.check(np.allclose(a.to_array(), b.to_array(), atol=1e-12), "array", text)
            mon.equal(a.coefficients.shape, b.coefficients.shape, "shape", text)
    for a in got.variables:
        mon.check(a.quadratic_program is got, "parent", text)
    again, other = QuadraticProgram(), QuadraticProgram()
    again.from_docplex(got.to_docplex())
    other.from_docplex(want.to_docplex())
    mon.equal(read(again).key(), read(other).key(), "exported", text)
    a, b = paulis(got), paulis(want)
    mon.equal(a is None, b is None, "ising", text)
    if a is not None:
        mon.event("ising")
        mon.equal(set(a[0]), set(b[0]), "ising", text)
        for key in a[0]:
            mon.check(abs(a[0][key] - b[0][key]) < 1e-9, "ising", text)
        mon.close(a[1], b[1], "ising", text, 1e-9)
    points = [[float(rng.randint(0, 1)) for _ in range(60)] for _ in range(2)]
    for name in sorted(CONVERTERS):
        a, b = converted(name, got, points), converted(name, want, points)
        mon.event("refused-alike" if b[0] is None else "converted-alike")
        mon.equal(a, b, "converted:" + name, text)
    if ref.n:
        i = rng.randrange(ref.n)
        const = {rng.choice([i, names[i]]): float(gen.some_point(rng, ref)[i])}
        a = got.substitute_variables(constants=const)
        b = want.substitute_variables(constants=const)
        mon.equal(whole(a), whole(b), "substituted", text)


def solve(rng, mon, got, want, ref, exactly, text):
    """Exact solvers see the same problem."""
    if taken(ref, "cplex"):
        a, b = CplexOptimizer().solve(got), CplexOptimizer().solve(want)
        mon.event("solved")
        mon.equal(a.status, b.status, "solved-status", text)
        if b.x is not None and b.status.name == "SUCCESS":
            mon.close(a.fval, b.fval, "solved-value", text, 1e-9 if exactly else 2e-4)
    which = rng.choice(["minimum-eigen", "recursive"])
    if exactly:
        seed = rng.randrange(10 ** 6)
        menu.reseed(seed)
        a = menu.make(which, seed).solve(got)
        menu.reseed(seed)
        agree(mon, a, menu.make(which, seed).solve(want), text)
        mon.event("solved")


# ---------------------------------------------------------------- ways to a program


def other_content(rng, ref):
    """The same variable names, with another content."""
    res = ref.copy()
    style = rng.choice(gen.COEF_STYLES)
    if rng.random() < 0.7:
        for i, v in enumerate(res.vars):
            if rng.random() < 0.6:
                typ = rng.choice([B, I, C])
                lo, up = gen.bounds(rng, typ)
                res.vars[i] = RefVar(v.name, typ, lo, up)
    if rng.random() < 0.7:
        res.lin = gen.lin(rng, res.n, style)
        res.quad = gen.quad(rng, res.n, style)
        res.const = gen.coef(rng, style)
        res.sense = rng.choice([1, -1])
    for cons in (res.lcons, res.qcons):
        for i, c in enumerate(cons):
            if rng.random() < 0.7:
                cons[i] = gen.constraint(rng, res, c.name, c.quad is not None, style)
    if rng.random() < 0.5:
        res.name = "other"
    return res


def enter_linear(rng, expr, lin, names):
    """Make the linear expression `expr` say `lin`."""
    if rng.random() < 0.5:
        expr.coefficients = lin_arg(rng, lin, names)
        return
    for i in rng.sample(range(len(names)), len(names)):
        expr[rng.choice([i, names[i]])] = num(lin.get(i, 0), rng)


def enter_quadratic(rng, expr, quad, names):
    if rng.random() < 0.5:
        expr.coefficients = quad_arg(rng, quad, names)
        return
    pairs = [(i, j) for i in range(len(names)) for j in range(i, len(names))]
    rng.shuffle(pairs)
    for i, j in pairs:
        if (i, j) in quad or expr[i, j] != 0:
            a, b = (i, j) if rng.random() < 0.5 else (j, i)
            expr[rng.choice([a, names[a]]), rng.choice([b, names[b]])] = num(
                quad.get((i, j), 0), rng
            )


def enter_variable(var, v):
    """Change type and bounds; the bounds stay in order all the time."""
    var.vartype = TYPES[v.type]
    if v.lb > var.upperbound:
        var.upperbound = v.ub
        var.lowerbound = v.lb
    else:
        var.lowerbound = v.lb
        var.upperbound = v.ub


def enter_constraint(rng, qp, con, c):
    names = [v.name for v in qp.variables]
    steps = ["lin", "sense", "rhs"] + (["quad"] if c.quad is not None else [])
    rng.shuffle(steps)
    for step in steps:
        if step == "lin":
            if rng.random() < 0.5:
                con.linear = lin_arg(rng, c.lin, names)
            else:
                enter_linear(rng, con.linear, c.lin, names)
        elif step == "quad":
            if rng.random() < 0.5:
                con.quadratic = quad_arg(rng, c.quad, names)
            else:
                enter_quadratic(rng, con.quadratic, c.quad, names)
        elif step == "sense":
            con.sense = SENSE[c.sense]
        else:
            con.rhs = num(c.rhs, rng)


def enter_objective(rng, qp, ref):
    names = [v.name for v in qp.variables]
    if rng.random() < 0.3:
        (qp.minimize if ref.sense == 1 else qp.maximize)(
            num(ref.const, rng), lin_arg(rng, ref.lin, names), quad_arg(rng, ref.quad, names)
        )
        return
    steps = ["const", "lin", "quad", "sense"]
    rng.shuffle(steps)
    obj = qp.objective
    for step in steps:
        if step == "const":
            obj.constant = num(ref.const, rng)
        elif step == "sense":
            obj.sense = ObjSense.MINIMIZE if ref.sense == 1 else ObjSense.MAXIMIZE
        elif step == "lin":
            if rng.random() < 0.5:
                obj.linear = lin_arg(rng, ref.lin, names)
            else:
                enter_linear(rng, obj.linear, ref.lin, names)
        elif rng.random() < 0.5:
            obj.quadratic = quad_arg(rng, ref.quad, names)
        else:
            enter_quadratic(rng, obj.quadratic, ref.quad, names)


def edit_into(rng, qp, ref, between=None):
    """Edit a program with the same names until it says `ref`."""
    todo = [lambda: setattr(qp, "name", ref.name), lambda: enter_objective(rng, qp, ref)]
    for v in ref.vars:
        todo.append(lambda v=v: enter_variable(qp.get_variable(v.name), v))
    for c in ref.lcons:
        todo.append(lambda c=c: enter_constraint(rng, qp, qp.get_linear_constraint(c.name), c))
    for c in ref.qcons:
        todo.append(lambda c=c: enter_constraint(rng, qp, qp.get_quadratic_constraint(c.name), c))
    rng.shuffle(todo)
    for k, step in enumerate(todo):
        step()
        if between is not None and k % 3 == 1:
            between()


def add_constraints(rng, qp, lcons, qcons):
    names = [v.name for v in qp.variables]
    for c in lcons:
        qp.linear_constraint(
            lin_arg(rng, c.lin, names), sense_arg(rng, c.sense), num(c.rhs, rng), c.name
        )
    for c in qcons:
        qp.quadratic_constraint(
            lin_arg(rng, c.lin, names),
            quad_arg(rng, c.quad, names),
            sense_arg(rng, c.sense),
            num(c.rhs, rng),
            c.name,
        )


def reach(rng, way, ref):
    """(a program that says `ref`, one built afresh)"""
    fresh = build(ref, rng, plain=True)
    if way in ("deepcopy", "pickle"):
        decimal = any(float(w) * 2 ** 20 % 1 for w in [*ref.lin.values(), *ref.quad.values()])
        first = build(ref, rng, plain=decimal)
        if rng.random() < 0.5:
            exercise(rng, first)
        if way == "deepcopy":
            return copy.deepcopy(first), fresh
        return pickle.loads(pickle.dumps(first, protocol=rng.choice([2, 4, 5]))), fresh
    if way == "edited":
        qp = build(other_content(rng, ref), rng)
        exercise(rng, qp)
        if rng.random() < 0.2:
            qp = copy.deepcopy(qp)
        between = (lambda: exercise(rng, qp)) if rng.random() < 0.3 else None
        edit_into(rng, qp, ref, between)
        return qp, fresh
    if way == "cleared":
        qp = build(gen.qp(rng), rng)
        exercise(rng, qp)
        qp.clear()
        qp.name = ref.name
        for v in ref.vars:
            if v.type == B:
                qp.binary_var(v.name)
            elif v.type == I:
                qp.integer_var(v.lb, v.ub, v.name)
            else:
                qp.continuous_var(v.lb, v.ub, v.name)
        add_constraints(rng, qp, ref.lcons, ref.qcons)
        enter_objective(rng, qp, ref)
        return qp, fresh
    if way == "removed":
        more = ref.copy()
        for k in range(rng.randint(1, 3)):
            more.lcons.insert(
                rng.randint(0, len(more.lcons)),
                gen.constraint(rng, ref, "extra{}".format(k), False, "small"),
            )
            more.qcons.insert(
                rng.randint(0, len(more.qcons)),
                gen.constraint(rng, ref, "extra_q{}".format(k), True, "small"),
            )
        qp = build(more, rng)
        exercise(rng, qp)
        for name in [c.name for c in more.lcons if c.name.startswith("extra")]:
            qp.remove_linear_constraint(
                name if rng.random() < 0.5 else qp.linear_constraints_index[name]
            )
        for name in [c.name for c in more.qcons if c.name.startswith("extra")]:
            qp.remove_quadratic_constraint(
                name if rng.random() < 0.5 else qp.quadratic_constraints_index[name]
            )
        # the last ones once more
        k, m = rng.randint(0, len(ref.lcons)), rng.randint(0, len(ref.qcons))
        for c in ref.lcons[k:]:
            qp.remove_linear_constraint(c.name)
        for c in ref.qcons[m:]:
            qp.remove_quadratic_constraint(c.name)
        add_constraints(rng, qp, ref.lcons[k:], ref.qcons[m:])
        return qp, fresh
    if way in ("reloaded", "reread"):
        qp = build(gen.qp(rng), rng)
        exercise(rng, qp)
        res = QuadraticProgram()
        if way == "reloaded":
            model = fresh.to_docplex()
            qp.from_docplex(model)
            res.from_docplex(model)
        else:
            qp = build(other_content(rng, ref), rng)
            exercise(rng, qp)
            qp.from_docplex(fresh.to_docplex())
            res.from_docplex(build(ref, rng, plain=True).to_docplex())
        return qp, res
    first = build(ref, rng)
    exercise(rng, first)
    res = first.substitute_variables()
    fresh.name = res.name
    return res, fresh


def program(rng, mon, k):
    way = WAYS[k % len(WAYS)]
    solvable = rng.random() < 0.4
    if solvable:
        ref = discrete(rng, 9)
    else:
        ref = gen.qp(rng, style=rng.choice(gen.COEF_STYLES))
    if rng.random() < 0.25:
        # an Ising form exists
        ref.lcons, ref.qcons = [], []
        if rng.random() < 0.7:
            ref.vars = [RefVar(v.name, B, 0, 1) for v in ref.vars]
    if way in ("deepcopy", "pickle") and rng.random() < 0.3:
        # numbers with many digits
        mon.event("decimals")
        factor = rng.choice([0.1, 1 / 3, 1e-3, 1e5 / 7])
        ref.const = F(float(ref.const) * factor)
        ref.lin = {i: F(float(w) * factor) for i, w in ref.lin.items()}
        ref.quad = {ij: F(float(w) * factor) for ij, w in ref.quad.items()}
        if not solvable and rng.random() < 0.5:
            for c in ref.cons:
                c.lin = {i: F(float(w) * factor) for i, w in c.lin.items()}
                if c.quad is not None:
                    c.quad = {ij: F(float(w) * factor) for ij, w in c.quad.items()}
    mon.event("way:" + way)
    text = "{} {}".format(way, ref)
    mon.note(text)
    got, want = reach(rng, way, ref)
    ref = read(want)
    behave(rng, mon, got, want, ref, text)
    if solvable:
        solve(rng, mon, got, want, ref, way in ("deepcopy", "pickle"), text)
    if ref.n and rng.random() < 0.4:
        ruled_out(rng, mon, got, ref, text)
    if rng.random() < 0.4:
        twin = copy.deepcopy(got) if rng.random() < 0.5 else pickle.loads(pickle.dumps(got))
        independent(rng, mon, got, twin, ref, text)
    mon.seen((way, ref.key()))


def ruled_out(rng, mon, qp, ref, text):
    """A program found infeasible stays so in its copies; cleared ones are valid again."""
    i = rng.randrange(ref.n)
    v = ref.vars[i]
    if float(v.ub) >= 1e20:
        return
    out = qp.substitute_variables(constants={v.name: float(v.ub) + 1})
    mon.event("ruled-out")
    mon.equal(out.status, QuadraticProgram.Status.INFEASIBLE, "status", text)
    mon.equal(qp.status, QuadraticProgram.Status.VALID, "status", text)
    for twin in (copy.deepcopy(out), pickle.loads(pickle.dumps(out))):
        mon.equal(twin.status, out.status, "status-of-copy", text)
        mon.equal(whole(twin), whole(out), "copy-of-infeasible", text)
        twin.clear()
        mon.equal(twin.status, QuadraticProgram.Status.VALID, "status-after-clear", text)
        mon.equal(out.status, QuadraticProgram.Status.INFEASIBLE, "status", text)


def independent(rng, mon, one, two, ref, text):
    """Editing one of the two leaves the other as it is; both keep working."""
    mon.event("independent")
    if rng.random() < 0.5:
        one, two = two, one
    goal = other_content(rng, ref)
    how = rng.choice(["into", "edit", "variables", "constraints"])
    fresh = build(ref, rng, plain=True)
    fresh.name = two.name
    if how == "into":
        edit_into(rng, one, goal)
        behave(rng, mon, one, build(goal, rng, plain=True), goal, "edited " + text)
    elif how == "edit":
        edit(rng, one)
    elif how == "variables":
        for v in (one, two)[: rng.choice([1, 1, 2])]:
            before = v.get_num_vars()
            new = v.integer_var(-1, 4, "new_one")
            mon.check(new.quadratic_program is v, "parent", text)
            mon.equal(v.get_num_vars(), before + 1, "variable-count", text)
            x = [1.0] * (before + 1)
            v.linear_constraint({"new_one": 2}, "<=", 3, "only_new")
            mon.equal(v.get_linear_constraint("only_new").evaluate(x), 2, "new-variable", text)
            mon.equal(v.is_feasible(x[:-1] + [4.0]), False, "new-variable", text)
        if two.get_num_vars() > ref.n:
            mon.equal(whole(one), whole(two), "edited-alike", text)
            return
    else:
        for c in ref.lcons:
            one.remove_linear_constraint(c.name)
        for c in ref.qcons:
            one.remove_quadratic_constraint(c.name)
        one.clear()
        one.binary_var("b")
    behave(rng, mon, two, fresh, ref, "left alone " + text)


# ---------------------------------------------------------------- objects in use


def twin_of(rng, obj):
    if rng.random() < 0.5:
        return copy.deepcopy(obj)
    return pickle.loads(pickle.dumps(obj))


def converter(rng, mon):
    """A converter copied after a conversion still reads its points."""
    mon.event("converter")
    kind = rng.choice(sorted(CONVERTERS))
    mode = rng.choice(["integer", "auto", "integer"])
    used = CONVERTERS[kind](mode)
    first = suited(rng, kind)
    text = "{} {}".format(kind, first)
    mon.note(text)
    out = used.convert(build(first, rng))
    n = out.get_num_vars()
    points = [[float(rng.randint(0, 1)) for _ in range(n)] for _ in range(3)]
    readings = [[float(v) for v in used.interpret(np.array(p))] for p in points]
    twin = twin_of(rng, used)

    def still(conv, kind_):
        for p, r in zip(points, readings):
            mon.check(points_equal(conv.interpret(np.array(p)), r), kind_, text)

    still(twin, "copied-reading")
    a, b = (used, twin) if rng.random() < 0.5 else (twin, used)
    second = suited(rng, kind)
    got = a.convert(build(second, rng))
    want = CONVERTERS[kind](mode).convert(build(second, rng, plain=True))
    mon.equal(read(got).key(), read(want).key(), "copied-conversion", text)
    still(b, "reading-follows-copy")
    mon.equal(read(b.convert(build(first, rng))).key(), read(out).key(), "copied-conversion", text)
    still(b, "copied-reading")


def real(rng, which):
    """Optimizers without stand-ins."""
    if which == "cplex":
        return CplexOptimizer()
    if which == "minimum-eigen":
        return MinimumEigenOptimizer(NumPyMinimumEigensolver())
    if which == "recursive":
        return RecursiveMinimumEigenOptimizer(
            MinimumEigenOptimizer(NumPyMinimumEigensolver()), rng.choice([1, 2, 3])
        )
    if which == "admm":
        return ADMMOptimizer(continuous_optimizer=CplexOptimizer())
    if which == "cobyla":
        return CobylaOptimizer(trials=2, maxfun=40)
    if which == "slsqp":
        return SlsqpOptimizer(trials=2, iter=20)
    return GoemansWilliamsonOptimizer(num_cuts=3, seed=5)


def optimizer(rng, mon):
    """An optimizer copied before or after use answers like the original."""
    # (stand-ins are closures, which a copy would share with the original)
    which = rng.choice(
        ["cplex", "minimum-eigen", "recursive", "admm", "cobyla", "slsqp", "goemans-williamson"]
    )
    seed = rng.randrange(10 ** 6)
    used = real(rng, which)
    ref = menu.problem(rng, which)
    if not taken(ref, which):
        return
    mon.event("optimizer")
    text = "{} {}".format(which, ref)
    mon.note(text)
    qp = build(ref, rng)
    if rng.random() < 0.5:
        early = copy.deepcopy(used)
    else:
        early = None
    menu.reseed(seed)
    try:
        want = used.solve(qp)
    except QiskitOptimizationError:
        twin = early or copy.deepcopy(used)
        menu.reseed(seed)
        mon.raises(QiskitOptimizationError, lambda: twin.solve(qp), "copied-optimizer", text)
        return
    twin = early or copy.deepcopy(used)
    menu.reseed(seed)
    got = twin.solve(copy.deepcopy(qp))
    mon.equal(got.status, want.status, "copied-optimizer", text)
    mon.equal(list(got.variable_names), list(want.variable_names), "copied-optimizer", text)
    mon.equal(got.x is None, want.x is None, "copied-optimizer", text)
    if want.x is not None:
        mon.check(
            np.allclose(got.fval, want.fval, 1e-7, 1e-7, equal_nan=True)
            # among equal eigenvalues the eigensolver picks at random
            and (
                which in ("minimum-eigen", "recursive")
                or np.allclose(got.x, want.x, 1e-7, 1e-7, equal_nan=True)
            ),
            "copied-optimizer",
            lambda: "{} {} instead of {} {} {}".format(got.x, got.fval, want.x, want.fval, text),
        )
    result(rng, mon, want, text)


def sampled(res):
    return [
        (None if s.x is None else tuple(s.x), s.fval, s.probability, s.status)
        for s in res.samples or []
    ]


def result(rng, mon, res, text):
    """A copied result says the same and lives apart."""
    mon.event("result")
    facts = (
        None if res.x is None else np.array(res.x, dtype=float),
        res.fval,
        res.status,
        list(res.variable_names),
        sampled(res),
    )

    def same(other, kind):
        mon.equal(type(other), type(res), kind, text)
        mon.equal(other.status, facts[2], kind, text)
        mon.equal(list(other.variable_names), facts[3], kind, text)
        mon.equal(other.x is None, facts[0] is None, kind, text)
        if facts[0] is not None:
            mon.check(points_equal(other.x, facts[0]), kind, text)
            mon.equal(other.fval, facts[1], kind, text)
            mon.equal(
                {k: float(v) for k, v in other.variables_dict.items()},
                dict(zip(facts[3], map(float, facts[0]))),
                kind,
                text,
            )
            for i, name in enumerate(facts[3]):
                mon.equal(float(other[name]), float(facts[0][i]), kind, text)
                mon.equal(float(other[i]), float(facts[0][i]), kind, text)
        mon.equal(
            sampled(other),
            facts[4],
            kind,
            text,
        )

    try:
        twin = twin_of(rng, res)
    except (pickle.PicklingError, AttributeError, TypeError, ReferenceError):
        mon.event("result:not-copyable")  # holds a stand-in or an object of another library
        return
    same(twin, "copied-result")
    if res.x is not None:
        mon.check(
            np.allclose(twin.get_correlations(), res.get_correlations()), "copied-result", text
        )
    if twin.x is not None and len(twin.x):
        twin.x[0] = 99
        for s in twin.samples or []:
            if s.x is not None:
                s.x[0] = 98
        same(res, "result-follows-copy")


def application(rng, mon):
    mon.event("application")
    n = rng.choice([3, 3, 4])
    graph = nx.Graph()
    graph.add_nodes_from(range(n))
    for i in range(n):
        for j in range(i):
            graph.add_edge(i, j, weight=rng.randint(1, 9))
    sparse = graph.copy()
    for e in list(graph.edges):
        if rng.random() < 0.4:
            sparse.remove_edge(*e)
    lists = [sorted({rng.randint(1, 4) for _ in range(rng.randint(1, 3))}) for _ in range(3)]
    numbers = [rng.randint(1, 9) for _ in range(n)]
    values = [rng.randint(1, 9) for _ in range(n)]
    makers = {
        "Maxcut": (Maxcut, [sparse]),
        "VertexCover": (VertexCover, [sparse]),
        "StableSet": (StableSet, [sparse]),
        "Clique": (Clique, [sparse, rng.choice([None, 2])]),
        "GraphPartition": (GraphPartition, [sparse]),
        "Tsp": (Tsp, [graph]),
        "VehicleRouting": (VehicleRouting, [graph, 2, rng.randrange(n)]),
        "Knapsack": (Knapsack, [values, numbers, 10]),
        "ExactCover": (ExactCover, [lists]),
        "SetPacking": (SetPacking, [lists]),
        "NumberPartition": (NumberPartition, [numbers]),
    }
    name = rng.choice(sorted(makers))
    cls, args = makers[name]
    app = cls(*args)
    text = "{} {}".format(name, args)
    mon.note(text)
    used = rng.random() < 0.5
    if used:
        app.to_quadratic_program()
    twin = twin_of(rng, app)
    qp = app.to_quadratic_program()
    mon.equal(whole(twin.to_quadratic_program()), whole(qp), "copied-application", text)
    for _ in range(3):
        if name == "Tsp":
            perm = rng.sample(range(n), n)
            x = [0.0] * n * n
            for p, i in enumerate(perm):
                x[i * n + p] = 1.0
        else:
            x = [float(rng.randint(0, 1)) for _ in range(qp.get_num_vars())]
        said = []
        for a in (app, twin):
            try:
                said.append(repr(a.interpret(np.array(x))))
            except Exception as ex:  # pylint: disable=broad-except
                said.append(type(ex).__name__)  # which points are readable: C19 to C21
        mon.equal(said[1], said[0], "copied-interpretation", text)


def run_case(rng, mon, k, tier):
    program(rng, mon, k)
    turn = k % 9
    if turn in (0, 3, 6):
        converter(rng, mon)
    if turn in (1, 2, 4, 5):
        optimizer(rng, mon)
    if turn in (7, 8, 3):
        application(rng, mon)
    if k < 3:
        mon.sample({"case": k, "trace": mon.trace[:3]})
