"""C30: exact solving finds the optimum by every route and however the problem is written."""
import copy
import os
import re
import tempfile
from fractions import Fraction as F
from itertools import combinations, permutations, product

import networkx as nx
import numpy as np
from qiskit.algorithms import NumPyMinimumEigensolver
from qiskit_optimization import QuadraticProgram
from qiskit_optimization.algorithms import (
    CplexOptimizer,
    MinimumEigenOptimizer,
    RecursiveMinimumEigenOptimizer,
)
from qiskit_optimization.algorithms import OptimizationResultStatus as Status
from qiskit_optimization.applications import (
    Clique,
    ExactCover,
    GraphPartition,
    Knapsack,
    Maxcut,
    NumberPartition,
    SetPacking,
    StableSet,
    Tsp,
    VehicleRouting,
    VertexCover,
)
from qiskit_optimization.converters import (
    InequalityToEquality,
    IntegerToBinary,
    LinearEqualityToPenalty,
    QuadraticProgramToQubo,
)

from vp.checks.c10 import problem
from vp.checks.c15 import best_sample
from vp.checks.c25 import unscaled
from vp.ref import B, I, RefCon, RefQP, RefVar, build, read
from vp.results import check_result
from vp.stubs import Eigensolver, exact, inner_optimizer, tie

PROPERTY = "C30"
LEVEL = "exploration"
RULE = (
    "random discrete problems and random instances of the eleven application classes, sent through "
    "random chains of routes (docplex, LP file, copies, rewritings, converters, Ising round trips, "
    "branching by substitution) to a random exact method; the point is taken back to the original "
    "problem and must be feasible and optimal by enumeration, the interpreted answer of an "
    "application must be an optimal solution by the definition of the combinatorial problem; "
    "non-trivial: at least one route; distinct by instance, routes and method"
)
CASES = {"quick": 2400, "thorough": 30000}
APPS = (
    "Maxcut",
    "VertexCover",
    "StableSet",
    "Clique",
    "GraphPartition",
    "Knapsack",
    "ExactCover",
    "SetPacking",
    "NumberPartition",
    "Tsp",
    "VehicleRouting",
)
ROUTES = (
    "docplex",
    "lp",
    "copy",
    "rewrite",
    "equalities",
    "bits",
    "qubo",
    "chain",
    "ising",
)
SOLVERS = ("cplex", "eigen", "numpy", "recursive")
REQUIRED = {
    "optimal": 800,
    "infeasible": 40,
    "program": 300,
    "branched": 80,
    "interpreted": 400,
}
REQUIRED.update({"app:" + a: 25 for a in APPS})
REQUIRED.update({"route:" + r: 80 for r in ROUTES})
REQUIRED.update({"solver:" + s: 80 for s in SOLVERS})
ASSUMPTIONS = ["CPLEX's default relative gap of 1e-4", "QUBOs of up to 13 binary variables"]
MAX_BITS = 13


# Instances: (text, program, optimum or None if there is no solution, judge, application)
# judge(answer) gives the value of an interpreted answer, None if it is no solution


def best_of(sense, values):
    values = list(values)
    if not values:
        return None
    return max(values) if sense == -1 else min(values)


def random_graph(rng, n, m, weighted):
    pairs = list(combinations(range(n), 2))
    edges = {
        e: (rng.choice([1, 2, 3, 5, 0.5, -1]) if weighted else 1)
        for e in rng.sample(pairs, min(m, len(pairs)))
    }
    g = nx.Graph()
    nodes = list(range(n))
    rng.shuffle(nodes)
    g.add_nodes_from(nodes)
    for (i, j), w in edges.items():
        g.add_edge(i, j, weight=w)
    return g, edges


def vertex_sets(n):
    for k in range(n + 1):
        yield from combinations(range(n), k)


def graph_instance(rng, which):
    n = rng.choice([2, 3, 4, 5, 6])
    two = which in ("Maxcut", "GraphPartition")
    g, edges = random_graph(rng, n, rng.randint(1, 9 if two else 6), two)
    size = None
    if which == "Clique":
        # few pairs that are not connected
        g = nx.complement(g)
        edges = {(min(e), max(e)): 1 for e in g.edges}
        size = rng.choice([None, None, rng.randint(1, n)])
    text = "{} n={} {} size={}".format(which, n, edges, size)

    def cut(part):
        return sum(w for (i, j), w in edges.items() if (i in part) != (j in part))

    def value(part):
        if which == "Maxcut":
            return cut(part)
        if which == "GraphPartition":
            return cut(part) if len(part) == n // 2 else None
        if which == "VertexCover":
            return len(part) if all(i in part or j in part for i, j in edges) else None
        if which == "StableSet":
            return None if any(i in part and j in part for i, j in edges) else len(part)
        if all((i, j) in edges for i, j in combinations(sorted(part), 2)):
            return len(part) if size in (None, len(part)) else None
        return None

    def judge(answer):
        if two:
            if sorted(answer[0] + answer[1]) != list(range(n)):
                return None
            return value(set(answer[1]))
        if len(set(answer)) != len(answer):
            return None
        return value(set(answer))

    sense = -1 if which in ("Maxcut", "StableSet", "Clique") else 1
    if which == "Clique":
        app = Clique(g, size)
    else:
        app = {
            "Maxcut": Maxcut,
            "GraphPartition": GraphPartition,
            "VertexCover": VertexCover,
            "StableSet": StableSet,
        }[which](g)
    vals = [value(set(p)) for p in vertex_sets(n)]
    return text, app, best_of(sense, [v for v in vals if v is not None]), judge


def knapsack(rng):
    n = rng.choice([1, 2, 3, 4, 5])
    values = [rng.randint(1, 12) for _ in range(n)]
    weights = [rng.randint(1, 7) for _ in range(n)]
    cap = rng.randint(0, sum(weights))

    def judge(answer):
        if len(set(answer)) != len(answer) or sum(weights[i] for i in answer) > cap:
            return None
        return sum(values[i] for i in answer)

    vals = [judge(p) for p in vertex_sets(n)]
    text = "Knapsack {} {} {}".format(values, weights, cap)
    return text, Knapsack(values, weights, cap), max(v for v in vals if v is not None), judge


def set_instance(rng, which):
    m = rng.choice([2, 3, 4])
    n = rng.choice([2, 3, 4, 5, 6])
    subs = [sorted(rng.sample(range(m), rng.randint(1, m))) for _ in range(n)]
    universe = {e for s in subs for e in s}

    def value(chosen):
        for e in universe:
            times = sum(e in s for s in chosen)
            if times > 1 or (times == 0 and which == "ExactCover"):
                return None
        return len(chosen)

    def judge(answer):
        rest = [list(s) for s in subs]
        for s in answer:
            if list(s) not in rest:
                return None
            rest.remove(list(s))
        return value(answer)

    sense = 1 if which == "ExactCover" else -1
    vals = [value([subs[i] for i in p]) for p in vertex_sets(n)]
    app = (ExactCover if which == "ExactCover" else SetPacking)(subs)
    text = "{} {}".format(which, subs)
    return text, app, best_of(sense, [v for v in vals if v is not None]), judge


def number_partition(rng):
    nums = [rng.randint(1, 9) for _ in range(rng.choice([2, 3, 4, 5, 6]))]
    if rng.random() < 0.5:
        nums.append(sum(nums[::2]))

    def judge(answer):
        if sorted(answer[0] + answer[1]) != sorted(nums):
            return None
        return 0 if sum(answer[0]) == sum(answer[1]) else None

    possible = any(
        2 * sum(v for v, a in zip(nums, x) if a) == sum(nums)
        for x in product([0, 1], repeat=len(nums))
    )
    text = "NumberPartition {}".format(nums)
    return text, NumberPartition(nums), 0 if possible else None, judge


def distances(rng, n):
    g = nx.Graph()
    nodes = list(range(n))
    rng.shuffle(nodes)
    g.add_nodes_from(nodes)
    w = {}
    for i, j in combinations(range(n), 2):
        w[i, j] = w[j, i] = rng.randint(1, 20)
        g.add_edge(i, j, weight=w[i, j])
    return g, w


def tsp(rng):
    n = rng.choice([2, 3, 3, 4])
    g, w = distances(rng, n)

    def judge(answer):
        if sorted(answer) != list(range(n)):
            return None
        return sum(w[answer[k - 1], answer[k]] for k in range(n))

    text = "Tsp n={} {}".format(n, w)
    return text, Tsp(g), min(judge(list(p)) for p in permutations(range(n))), judge


def routing(rng):
    n = rng.choice([3, 3, 4])
    g, w = distances(rng, n)
    depot = rng.randrange(n)
    vehicles = rng.choice([1, 2])
    others = [i for i in range(n) if i != depot]

    def judge(answer):
        seen = []
        for route in answer:
            if not route or route[0][0] != depot or route[-1][1] != depot:
                return None
            if any(a[1] != b[0] for a, b in zip(route, route[1:])):
                return None
            seen.extend(a[1] for a in route[:-1])
        if len(answer) != vehicles or sorted(seen) != others:
            return None
        return sum(w[i, j] for route in answer for i, j in route)

    def plans():
        for p in permutations(others):
            for cuts in combinations(range(1, len(others)), vehicles - 1):
                edges = (0,) + cuts + (len(others),)
                stops = [[depot] + list(p[a:b]) + [depot] for a, b in zip(edges, edges[1:])]
                yield [list(zip(s, s[1:])) for s in stops]

    text = "VehicleRouting n={} depot={} vehicles={} {}".format(n, depot, vehicles, w)
    app = VehicleRouting(g, vehicles, depot)
    return text, app, best_of(1, [judge(p) for p in plans()]), judge


def instance(rng, which):
    if which in ("Maxcut", "VertexCover", "StableSet", "Clique", "GraphPartition"):
        return graph_instance(rng, which)
    if which == "Knapsack":
        return knapsack(rng)
    if which in ("ExactCover", "SetPacking"):
        return set_instance(rng, which)
    if which == "NumberPartition":
        return number_partition(rng)
    return tsp(rng) if which == "Tsp" else routing(rng)


# Routes: program -> (program, function that takes a point back)


def by_name(source, target):
    """Takes a point of `target` back to the order of `source`."""
    at = {v.name: k for k, v in enumerate(target.variables)}
    order = [at[v.name] for v in source.variables]
    return lambda x: [x[k] for k in order]


def fits_lp(qp):
    ref = read(qp)
    used = set(ref.lin) | {i for pair in ref.quad for i in pair}
    nums = list(ref.lin.values()) + list(ref.quad.values()) + [ref.const]
    for c in ref.lcons:
        used |= set(c.lin)
        nums += list(c.lin.values()) + [c.rhs]
        if not c.lin:
            return False
    names = [v.name for v in ref.vars] + [c.name for c in ref.lcons]
    return (
        len(used) == ref.n
        and all(F("%.9g" % float(v)) == F(v) for v in nums)
        and all(re.fullmatch(r"[a-df-z][a-z_0-9]*", name) for name in names)
    )


def rewrite(rng, qp):
    """The same problem in other words."""
    ref = read(qp)
    n = ref.n
    perm = list(range(n))
    if rng.random() < 0.7:
        rng.shuffle(perm)
    at = {old: new for new, old in enumerate(perm)}
    res = RefQP()
    stem = rng.choice(["v", "x", "b", None])
    for new, old in enumerate(perm):
        v = ref.vars[old]
        name = v.name if stem is None else "{}{}".format(stem, new)
        typ = v.type
        if typ == B and rng.random() < 0.2:
            typ = I
        res.vars.append(RefVar(name, typ, v.lb, v.ub))
    sign = rng.choice([1, -1])
    res.sense = ref.sense * sign
    res.const = sign * ref.const + rng.choice([0, 0, 3, -7])
    res.lin = {at[i]: sign * v for i, v in ref.lin.items()}
    res.quad = {}
    for (i, j), v in ref.quad.items():
        i, j = sorted((at[i], at[j]))
        res.quad[i, j] = res.quad.get((i, j), F(0)) + sign * v
    lcons = []
    for c in ref.lcons:
        lin = {at[i]: v for i, v in c.lin.items()}
        other = {"<=": ">=", ">=": "<=", "==": "=="}
        roll = rng.random()
        if roll < 0.3:
            lcons.append(({i: -v for i, v in lin.items()}, other[c.sense], -c.rhs))
        elif roll < 0.45 and c.sense == "==":
            lcons.append((lin, "<=", c.rhs))
            lcons.append((lin, ">=", c.rhs))
        elif roll < 0.55:
            lcons.append((lin, c.sense, c.rhs))
            lcons.append(({i: 2 * v for i, v in lin.items()}, c.sense, 2 * c.rhs))
        else:
            lcons.append((lin, c.sense, c.rhs))
    rng.shuffle(lcons)
    for k, (lin, sense, rhs) in enumerate(lcons):
        res.lcons.append(RefCon("con{}".format(k), lin, None, sense, rhs))
    return build(res, rng), lambda x: [x[at[i]] for i in range(n)]


def take(rng, name, qp):
    """The program behind a route, or None if the route cannot be taken."""
    if name == "docplex":
        res = QuadraticProgram("other")
        if rng.random() < 0.3:
            res.binary_var("unrelated")
        res.from_docplex(qp.to_docplex())
        return res, by_name(qp, res)
    if name == "lp":
        if not fits_lp(qp):
            return None
        res = QuadraticProgram()
        with tempfile.TemporaryDirectory() as folder:
            path = os.path.join(folder, "program.lp")
            qp.write_to_lp_file(path)
            res.read_from_lp_file(path)
        return res, by_name(qp, res)
    if name == "copy":
        return copy.deepcopy(qp), list
    if name == "rewrite":
        return rewrite(rng, qp)
    if name == "equalities":
        conv = [InequalityToEquality(rng.choice(["integer", "integer", "auto"]))]
    elif name == "bits":
        conv = [IntegerToBinary()]
    elif name == "chain":
        conv = [InequalityToEquality("integer"), IntegerToBinary(), LinearEqualityToPenalty()]
    else:
        conv = [QuadraticProgramToQubo()]
    res = qp
    for c in conv:
        res = c.convert(res)
    if name == "ising":
        op, offset = res.to_ising()
        res = QuadraticProgram()
        res.from_ising(op, offset, linear=rng.random() < 0.5)

    def back(x):
        for c in conv[::-1]:
            x = c.interpret(x)
        return x

    return res, back


def cplex_takes(ref):
    """CPLEX solves any binary objective but only convex ones of integer variables."""
    ints = {i for i, v in enumerate(ref.vars) if v.type != B}
    return all(
        (i == j and v * ref.sense >= 0) or not {i, j} & ints for (i, j), v in ref.quad.items()
    )


def size_of_values(ref):
    """A bound on the values of the objective, with or without its constant."""
    far = [max(abs(F(v.lb)), abs(F(v.ub))) for v in ref.vars]
    total = abs(ref.const) + sum(abs(v) * far[i] for i, v in ref.lin.items())
    return float(total + sum(abs(v) * far[i] * far[j] for (i, j), v in ref.quad.items()))


def bits(qp):
    """Size of the QUBO of a discrete problem."""
    return QuadraticProgramToQubo().convert(qp).get_num_vars()


CPLEX_USED = []


def solve(rng, mon, qp, text, penalised):
    """An optimal point of qp by a random exact method, None if it reports that there is none."""
    ref = read(qp)
    size = bits(qp) if all(v.type in (B, I) for v in ref.vars) else None
    which = rng.choice(SOLVERS)
    if which == "numpy" and (size is None or size > 8):
        which = "eigen"
    if which != "cplex" and (size is None or size > MAX_BITS):
        which = "cplex"
    # penalties beyond CPLEX's gap
    if which == "cplex" and not (
        cplex_takes(ref) and (not penalised or size_of_values(ref) <= 2000)
    ):
        which = "eigen"
    if which != "cplex" and (size is None or size > MAX_BITS):
        mon.event("too-large")
        return "skip"
    mon.event("solver:" + which)
    text = "{} by {}".format(text, which)
    if which == "cplex":
        opt = CplexOptimizer(disp=False)
    elif which == "eigen":
        opt = MinimumEigenOptimizer(Eigensolver(rng, exact(rng)))
    elif which == "numpy":
        opt = MinimumEigenOptimizer(NumPyMinimumEigensolver())
    else:
        inner, final = inner_optimizer(best_sample(rng)), inner_optimizer(best_sample(rng))
        opt = RecursiveMinimumEigenOptimizer(
            inner, min_num_vars=rng.choice([1, 2, 3, 20]), min_num_vars_optimizer=final
        )
    if which == "cplex":
        CPLEX_USED.append(size_of_values(ref))
    res = opt.solve(qp)
    if which != "recursive":
        check_result(mon, res, ref, qp, text, tol=1e-6)
    if which == "cplex":
        if unscaled(res):
            return "skip"
        if res.status == Status.INFEASIBLE and res.raw_results.get_status() in (1, 101, 102):
            # a bound or constraint missed by rounding
            return [float(round(a)) for a in res.x]
    if res.status != Status.SUCCESS:
        return None
    return [float(a) if v.type not in (B, I) else float(round(a)) for v, a in zip(ref.vars, res.x)]


def branch(rng, mon, qp, text, penalised):
    """The best of all values of one variable."""
    ref = read(qp)
    small = [i for i, v in enumerate(ref.vars) if v.type in (B, I) and v.ub - v.lb <= 3]
    if not small or ref.n < 2:
        return solve(rng, mon, qp, text, penalised)
    at = rng.choice(small)
    mon.event("branched")
    var = ref.vars[at]
    found = []
    for a in range(int(var.lb), int(var.ub) + 1):
        key = rng.choice([at, var.name])
        sub = qp.substitute_variables(constants={key: a})
        if sub.status == QuadraticProgram.Status.INFEASIBLE:
            continue
        x = solve(rng, mon, sub, "{} with {}={}".format(text, var.name, a), penalised)
        if isinstance(x, str):
            return x
        if x is not None:
            x = list(by_name_without(qp, sub, at, a)(x))
            found.append((ref.sense * qp.objective.evaluate(x), x))
    return min(found)[1] if found else None


def by_name_without(qp, sub, at, a):
    names = {v.name: k for k, v in enumerate(sub.variables)}
    return lambda x: [
        a if k == at else x[names[v.name]] for k, v in enumerate(qp.variables)
    ]


def run_case(rng, mon, k, tier):
    del CPLEX_USED[:]
    app = None
    if rng.random() < 0.35:
        ref = problem(rng, 11)
        qp = build(ref, rng)
        best, _ = ref.optimum()
        text = repr(ref)
        mon.event("program")
    else:
        which = APPS[k % len(APPS)]
        text, app, best, judge = instance(rng, which)
        mon.event("app:" + which)
        qp = app.to_quadratic_program()
        ref = read(qp)
    penalised = False
    names = []
    backs = []
    at = qp
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        name = rng.choice(ROUTES)
        discrete = all(v.type in (B, I) for v in read(at).vars)
        if name in ("qubo", "chain", "ising", "bits") and not (discrete and bits(at) <= MAX_BITS):
            continue
        mon.note("{} routes {} {}".format(text, names, name))
        taken = take(rng, name, at)
        if taken is None:
            continue
        penalised = penalised or name in ("qubo", "chain", "ising")
        names.append(name)
        mon.event("route:" + name)
        at = taken[0]
        backs.append(taken[1])
    branching = rng.random() < 0.15
    text = "{} routes {}{}".format(text, names, " branching" if branching else "")
    mon.note(text)
    x = (branch if branching else solve)(rng, mon, at, text, penalised)
    if isinstance(x, str):
        return
    if x is None:
        mon.check(best is None, "no-solution-found", lambda: "optimum {} {}".format(best, text))
        mon.event("infeasible")
        return
    for back in backs[::-1]:
        x = back(x)
    x = [float(a) for a in x]
    feasible = bool(ref.feasible_mask(np.array([[round(a) for a in x]], dtype=float))[0])
    if best is None:
        mon.event("infeasible")
        mon.check(
            penalised and not feasible, "solution-of-infeasible-problem", lambda: "{} {}".format(x, text)
        )
        return
    mon.check(feasible, "not-feasible", lambda: "{} {}".format(x, text))
    best = float(best)
    # CPLEX's gap is relative to the values of what it solved
    slack = 1e-6 * max(1.0, abs(best), abs(float(ref.const)))
    if CPLEX_USED:
        slack += 1.1e-4 * max([abs(best)] + CPLEX_USED)
    got = float(ref.values(np.array([[round(a) for a in x]], dtype=float))[0])
    mon.event("optimal")
    if app is None:
        mon.check(
            abs(got - best) <= slack,
            "not-optimal",
            lambda: "{} value {} optimum {} {}".format(x, got, best, text),
        )
    else:
        answer = app.interpret(np.array(x))
        val = judge(answer)
        mon.event("interpreted")
        mon.check(val is not None, "answer-is-no-solution", lambda: "{} {}".format(answer, text))
        mon.check(
            abs(val - best) <= slack,
            "answer-not-optimal",
            lambda: "{} value {} optimum {} {}".format(answer, val, best, text),
        )
    if names:
        mon.seen((text, tuple(names)))
    if k < 3:
        mon.sample({"instance": text[:300]})
