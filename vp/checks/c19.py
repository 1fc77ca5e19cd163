"""C19: graph applications model their combinatorial problem exactly."""
from itertools import combinations

import networkx as nx
import numpy as np
from qiskit_optimization.applications import (
    Clique,
    GraphPartition,
    Maxcut,
    StableSet,
    VertexCover,
)

from vp.checks.c10 import all_bits
from vp.ref import B, read

PROPERTY = "C19"
LEVEL = "exploration"
RULE = (
    "random and degenerate graphs (no edges, complete, isolated nodes, self-loops, negative, zero, "
    "fractional and missing weights, permuted node order, given as graph, matrix or edge list); the "
    "program of every application compared with the combinatorial definition at every assignment, "
    "interpretation and drawing checked at every assignment, at sampled ones of graphs with up to 25 "
    "nodes; distinct by graph and application"
)
CASES = {"quick": 580, "thorough": 6960}
REQUIRED = {
    "Maxcut": 200,
    "VertexCover": 200,
    "StableSet": 200,
    "Clique": 200,
    "Clique:size": 80,
    "size-changed": 50,
    "GraphPartition": 200,
    "assignments": 50000,
    "interpreted": 10000,
    "drawn": 500,
    "weights:missing": 50,
    "weights:negative": 50,
    "no-edges": 5,
    "self-loop": 10,
    "node-order": 50,
    "form:graph": 100,
    "form:matrix": 50,
    "form:edges": 30,
    "large": 100,
    "large:feasible": 90,
}


def graph(rng, mon, max_n=8, weighted=None, loops=True):
    """(argument for the application, {(i, j): weight}, n), nodes 0..n-1."""
    if max_n > 10:
        n = rng.choice([11, 13, 17, max_n])
    else:
        n = rng.choice([1, 2, 3, 4, 5, 5, 6, 6, 7, max_n])
    dens = rng.choice([0.0, 0.2, 0.5, 0.5, 0.8, 1.0])
    kind = weighted or rng.choice(["missing", "missing", "pos", "negative", "frac", "some"])
    edges = {}
    for i, j in combinations(range(n), 2):
        if rng.random() < dens:
            if kind == "pos":
                w = rng.randint(1, 9)
            elif kind == "negative":
                w = rng.choice([-5, -2, -1, 0, 1, 3, 10])
            elif kind == "frac":
                w = rng.randint(-20, 20) / 8
            elif kind == "some":
                w = rng.choice([None, None, 2, 3])
            else:
                w = None
            edges[i, j] = w
    if kind == "negative":
        mon.event("weights:negative")
    if not edges:
        mon.event("no-edges")
    if any(w is None for w in edges.values()):
        mon.event("weights:missing")
    if loops and rng.random() < 0.1:
        mon.event("self-loop")
        i = rng.randrange(n)
        edges[i, i] = None if kind in ("missing", "some") else rng.choice([1, 2, -1])
    exact = {e: 1 if w is None else w for e, w in edges.items()}
    form = rng.choice(["graph", "graph", "matrix", "edges"])
    covered = sorted({i for e in edges for i in e}) == list(range(n))
    if form == "edges" and not covered:
        form = "graph"
    if form == "matrix" and any(w is None or w == 0 for w in edges.values()):
        exact = {e: w for e, w in exact.items() if w != 0}
        edges = exact
    mon.event("form:" + form)
    items = list(edges.items())
    rng.shuffle(items)
    if form == "matrix":
        mat = np.zeros((n, n))
        for (i, j), w in exact.items():
            mat[i, j] = mat[j, i] = w
        return mat, exact, n
    if form == "edges":
        arg = []
        for (i, j), w in items:
            i, j = (i, j) if rng.random() < 0.5 else (j, i)
            arg.append((i, j) if w is None else (i, j, {"weight": w}))
        return arg, exact, n
    g = nx.Graph()
    nodes = list(range(n))
    if rng.random() < 0.6:
        rng.shuffle(nodes)
    if nodes != list(range(n)):
        mon.event("node-order")
    g.add_nodes_from(nodes)
    for (i, j), w in items:
        i, j = (i, j) if rng.random() < 0.5 else (j, i)
        if w is None:
            g.add_edge(i, j)
        else:
            g.add_edge(i, j, weight=w)
    return g, exact, n


def as_result(qp, x, rng):
    """x as what `interpret` accepts."""
    from qiskit_optimization.algorithms import OptimizationResult, OptimizationResultStatus

    roll = rng.random()
    if roll < 0.35:
        return np.array(x, dtype=float)
    if roll < 0.6:
        kinds = [int, np.int8, bool, np.float32] if all(a in (0, 1) for a in x) else [int]
        return np.array(x, dtype=rng.choice(kinds))
    return OptimizationResult(
        x=np.array(x, dtype=float) if roll < 0.8 else [float(a) for a in x],
        fval=float(qp.objective.evaluate([float(a) for a in x])),
        variables=qp.variables,
        status=OptimizationResultStatus.SUCCESS,
    )


def near(rng, x, count):
    """Points that differ from x in a few positions."""
    for _ in range(count):
        y = list(x)
        for i in rng.sample(range(len(y)), rng.choice([1, 1, 2, min(3, len(y))])):
            y[i] = 1 - y[i]
        yield tuple(y)


def some_assignments(rng, n, feasible, count=60):
    """Assignments of many variables: solutions grown from any start, what is next to them, any."""
    res = [(0,) * n, (1,) * n]
    for start in ((0,) * n, (1,) * n):
        for _ in range(4):
            x = list(start)
            order = list(range(n))
            rng.shuffle(order)
            for i in order:
                x[i] = 1 - x[i]
                if not feasible(tuple(x)):
                    x[i] = 1 - x[i]
            res.append(tuple(x))
            res.extend(near(rng, x, 5))
            half = list(start)
            for i in order[: n // 2]:
                half[i] = 1 - half[i]
            res.append(tuple(half))
    while len(res) < count:
        p = rng.choice([0.1, 0.5, 0.9])
        res.append(tuple(int(rng.random() < p) for _ in range(n)))
    return res


def check_program(mon, qp, n, sense, feasible, value, text, names=None, points=None):
    """The program has n binary variables, the given feasible points and values."""
    ref = read(qp)
    mon.equal(ref.n, n, "variable-count", text)
    mon.check(all(v.type == B for v in ref.vars), "variable-types", text)
    if names is not None:
        mon.equal([v.name for v in ref.vars], names, "variable-names", text)
    if sense is not None:
        mon.equal(ref.sense, sense, "sense", text)
    pts = all_bits(n) if points is None else np.array(points, dtype=float)
    feas = ref.feasible_mask(pts)
    vals = ref.values(pts)
    mon.event("assignments", len(pts))
    for x, f, v in zip(pts.astype(int), feas, vals):
        x = tuple(int(a) for a in x)
        mon.check(
            bool(f) == bool(feasible(x)),
            "feasibility",
            lambda: "{} feasible={} {}".format(x, bool(f), text),
        )
        if value is not None:
            w = value(x)
            mon.check(
                abs(v - w) <= 1e-9 * (1 + abs(w)),
                "value",
                lambda: "{} value {} instead of {} {}".format(x, v, w, text),
            )
    return pts.astype(int), feas


class Drawings:
    """Stands in for networkx's drawing functions and records what was to be drawn."""

    NAMES = ("draw", "draw_networkx_edges", "draw_networkx")

    def __enter__(self):
        self.calls = []
        self.saved = {name: getattr(nx, name) for name in self.NAMES}
        for name in self.NAMES:
            setattr(nx, name, self._record(name))
        return self

    def _record(self, name):
        def stand_in(graph, *args, **kw):
            self.calls.append((name, graph, args, kw))

        return stand_in

    def __exit__(self, *exc):
        for name, fn in self.saved.items():
            setattr(nx, name, fn)


def check_drawing(rng, mon, app, qp, x, groups, text):
    """Nodes of one group have one colour, nodes of different groups different ones."""
    with Drawings() as rec:
        app.draw()
        mon.equal(len(rec.calls), 1, "plain-drawing", text)
        mon.equal(set(rec.calls[0][1].nodes), set(range(len(x))), "plain-drawing-nodes", text)
        del rec.calls[:]
        app.draw(as_result(qp, x, rng))
    mon.event("drawn")
    drawn = [c for c in rec.calls if "node_color" in c[3]]
    mon.check(len(drawn) == 1, "drawing", text)
    _, g, _, kw = drawn[0]
    colour = dict(zip(kw.get("nodelist", g.nodes), kw["node_color"]))
    mon.equal(len(colour), len(x), "drawing-nodes", text)
    for a in range(len(x)):
        for b in range(a):
            same_group = (a in groups[0]) == (b in groups[0])
            mon.check(
                (colour[a] == colour[b]) == same_group,
                "drawing-colours",
                lambda: "{} for {} {}".format(colour, x, text),
            )


def run_app(rng, mon, which, large=False):
    arg, edges, n = graph(rng, mon, max_n=25 if large else 8)
    before = repr(arg) if not isinstance(arg, nx.Graph) else repr(sorted(arg.edges(data=True)))
    text = "{} n={} {}".format(which, n, edges)
    mon.note(text)
    mon.event(which)
    pairs = [e for e in edges if e[0] != e[1]]
    size = None
    two_groups = which in ("Maxcut", "GraphPartition")

    def cut(x):
        return sum(w for (i, j), w in edges.items() if x[i] != x[j])

    if which == "Maxcut":
        app, sense, feasible, value = Maxcut(arg), -1, lambda x: True, cut
    elif which == "GraphPartition":
        app, sense, value = GraphPartition(arg), 1, cut
        feasible = lambda x: sum(x) == n // 2
    elif which == "VertexCover":
        app, sense, value = VertexCover(arg), 1, sum
        feasible = lambda x: all(x[i] or x[j] for i, j in edges)
    elif which == "StableSet":
        app, sense, value = StableSet(arg), -1, sum
        feasible = lambda x: not any(x[i] and x[j] for i, j in edges)
    else:
        if rng.random() < 0.5:
            size = rng.randint(0, n)
            mon.event("Clique:size")
        sense, value = (-1, sum) if size is None else (None, None)
        if rng.random() < 0.5:
            app = Clique(arg, size)
        else:
            app = Clique(arg, rng.choice([None, rng.randint(0, n)]))
            if rng.random() < 0.7:  # an object already used with the other size
                mon.event("size-changed")
                app.interpret(as_result(app.to_quadratic_program(), [0] * n, rng))
            app.size = size
        mon.equal(app.size, size, "clique-size", text)

        def feasible(x):
            sel = [i for i in range(n) if x[i]]
            clique = all((i, j) in pairs for i, j in combinations(sel, 2))
            return clique and (size is None or len(sel) == size)

    text = "{} size={}".format(text, size)
    mon.equal(set(app.graph.nodes), set(range(n)), "graph-nodes", text)
    mon.equal(
        {(min(e), max(e)) for e in app.graph.edges}, set(edges), "graph-edges", text
    )
    qp = app.to_quadratic_program()
    names = ["x_{}".format(i) for i in range(n)]
    some = None
    if large:
        mon.event("large")
        some = some_assignments(rng, n, feasible)
        if which == "Clique" and size is not None:
            clique = next((c for c in nx.find_cliques(app.graph) if len(c) >= size), None)
            if clique is not None:
                x = tuple(int(i in clique[:size]) for i in range(n))
                some += [x] + list(near(rng, x, 8))
    pts, feas = check_program(mon, qp, n, sense, feasible, value, text, names, some)
    if large and feas.any():
        mon.event("large:feasible")
    if rng.random() < 0.3:
        again = app.to_quadratic_program()
        mon.equal(read(again).key(), read(qp).key(), "second-program", text)
    after = repr(arg) if not isinstance(arg, nx.Graph) else repr(sorted(arg.edges(data=True)))
    mon.equal(after, before, "graph-modified", text)
    # interpretation of every assignment
    for x in pts:
        got = app.interpret(as_result(qp, x, rng))
        ones = [i for i in range(n) if x[i]]
        zeros = [i for i in range(n) if not x[i]]
        mon.event("interpreted")
        if two_groups:
            mon.equal([sorted(g) for g in got], [zeros, ones], "interpretation", text)
        else:
            mon.equal(sorted(got), ones, "interpretation", text)
    for x in rng.sample(list(pts), min(2, len(pts))):
        check_drawing(rng, mon, app, qp, x, [[i for i in range(n) if x[i]]], text)
    mon.seen((which, tuple(sorted(edges.items())), n, size))


def run_case(rng, mon, k, tier):
    for which in ("Maxcut", "VertexCover", "StableSet", "Clique", "GraphPartition"):
        run_app(rng, mon, which, large=k % 8 == 7)
    if k < 3:
        mon.sample({"case": k})
