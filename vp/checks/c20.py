"""C20: routing applications model exactly the valid tours and routes."""
from itertools import combinations, permutations

import networkx as nx
import numpy as np
from qiskit_optimization.applications import Tsp, VehicleRouting

from vp.checks.c10 import all_bits
from vp.checks.c19 import Drawings, as_result
from vp.ref import B, read

PROPERTY = "C20"
LEVEL = "exploration"
RULE = (
    "complete weighted graphs of up to 5 (tours) and 5 (routes) nodes with asymmetric-looking, "
    "zero, fractional and negative weights, permuted node order, every depot and number of "
    "vehicles; feasible set and objective compared with the combinatorial definition at every "
    "assignment of the small instances, and at every tour or route set and their mutations in the "
    "larger ones (up to 12 and 10 nodes, sampled); interpretation and drawing checked; distinct by instance"
)
CASES = {"quick": 470, "thorough": 5640}
REQUIRED = {
    "tsp": 150,
    "vrp": 150,
    "assignments": 50000,
    "tours": 1000,
    "route-sets": 1000,
    "mutations": 5000,
    "depot-not-0": 50,
    "settings-changed": 20,
    "subtour-of-3": 10,
    "subtour-of-4": 3,
    "vehicles:1": 20,
    "vehicles:3": 10,
    "subtours": 100,
    "drawn": 200,
    "tsp-value": 500,
    "tsp:large": 40,
    "vrp:large": 20,
    "subtour-of-7": 10,
}


def complete(rng, n):
    kind = rng.choice(["pos", "pos", "zero", "frac", "neg"])
    w = {}
    for e in combinations(range(n), 2):
        if kind == "pos":
            w[e] = rng.randint(1, 30)
        elif kind == "zero":
            w[e] = rng.choice([0, 0, 1, 5])
        elif kind == "frac":
            w[e] = rng.randint(1, 100) / 8
        else:
            w[e] = rng.randint(-6, 12)
    g = nx.Graph()
    nodes = list(range(n))
    if rng.random() < 0.5:
        rng.shuffle(nodes)
    g.add_nodes_from(nodes)
    items = list(w.items())
    rng.shuffle(items)
    for (i, j), v in items:
        g.add_edge(*((i, j) if rng.random() < 0.5 else (j, i)), weight=v)
    sym = np.zeros((n, n))
    for (i, j), v in w.items():
        sym[i, j] = sym[j, i] = v
    arg = g
    if kind in ("pos", "frac") and rng.random() < 0.3:
        arg = sym.copy()
    return arg, sym


def flips(rng, x, count):
    """Points near x."""
    for _ in range(count):
        y = list(x)
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            i = rng.randrange(len(y))
            y[i] = 1 - y[i]
        yield tuple(y)
    ones = [i for i, a in enumerate(x) if a]
    zeros = [i for i, a in enumerate(x) if not a]
    for _ in range(count):
        y = list(x)
        if ones and zeros:
            y[rng.choice(ones)] = 0
            y[rng.choice(zeros)] = 1
            yield tuple(y)


def compare(mon, ref, qp, pts, feasible, value, text):
    mat = np.array(pts, dtype=float)
    feas = ref.feasible_mask(mat)
    vals = ref.values(mat)
    for x, f, v in zip(pts, feas, vals):
        want = feasible(x)
        mon.check(
            bool(f) == want, "feasibility", lambda: "{} feasible={} {}".format(x, bool(f), text)
        )
        if want:
            w = value(x)
            mon.check(
                abs(v - w) <= 1e-9 * (1 + abs(w)),
                "length",
                lambda: "{} value {} instead of {} {}".format(x, v, w, text),
            )


def edge_set(call):
    kw = call[3]
    return [tuple(e) for e in kw["edgelist"]]


def tsp(rng, mon, tier):
    n = rng.choice([1, 2, 3, 3, 4, 4, 5, 5, rng.choice([6, 8, 11, 12])])
    arg, w = complete(rng, n)
    if n == 1:
        arg = nx.Graph()
        arg.add_node(0)
    app = Tsp(arg)
    text = "tsp n={} {}".format(n, w.tolist())
    mon.note(text)
    mon.event("tsp")
    qp = app.to_quadratic_program()
    ref = read(qp)
    mon.equal(ref.n, n * n, "variable-count", text)
    mon.check(all(v.type == B for v in ref.vars), "variable-types", text)
    mon.equal(ref.sense, 1, "sense", text)
    mon.equal(
        [v.name for v in ref.vars],
        ["x_{}_{}".format(i, p) for i in range(n) for p in range(n)],
        "variable-names",
        text,
    )

    def feasible(x):
        m = np.array(x).reshape(n, n)
        return bool((m.sum(axis=0) == 1).all() and (m.sum(axis=1) == 1).all())

    def order(x):
        m = np.array(x).reshape(n, n)
        return [int(np.argmax(m[:, p])) for p in range(n)]

    def length(x):
        o = order(x)
        return sum(w[o[p], o[(p + 1) % n]] for p in range(n)) if n > 1 else 0

    if n <= 3:
        pts = [tuple(int(a) for a in x) for x in all_bits(n * n)]
        mon.event("assignments", len(pts))
        compare(mon, ref, qp, pts, feasible, length, text)
    if n <= 5:
        tours = permutations(range(n))
    else:
        mon.event("tsp:large")
        tours = [tuple(rng.sample(range(n), n)) for _ in range(12)]
    for o in tours:
        x = [0] * (n * n)
        for p, i in enumerate(o):
            x[i * n + p] = 1
        pts = [tuple(x)] + list(flips(rng, x, 4))
        mon.event("tours")
        mon.event("mutations", len(pts) - 1)
        compare(mon, ref, qp, pts, feasible, length, text)
        got = app.interpret(as_result(qp, x, rng))
        mon.equal(list(got), list(o), "tour", text)
        mon.event("tsp-value")
        if n > 1:
            mon.close(Tsp.tsp_value(list(o), w), length(x), "tsp-value", text)
    # several nodes in one step are listed together
    x = [rng.randint(0, 1) for _ in range(n * n)]
    want = []
    for p in range(n):
        step = [i for i in range(n) if x[i * n + p]]
        want.append(step[0] if len(step) == 1 else step)
    mon.equal(app.interpret(as_result(qp, x, rng)), want, "partial-tour", text)
    if n > 2:
        o = list(range(n))
        rng.shuffle(o)
        x = [0] * (n * n)
        for p, i in enumerate(o):
            x[i * n + p] = 1
        with Drawings() as rec:
            app.draw(as_result(qp, x, rng), pos={i: (i, i) for i in range(n)})
        drawn = [c for c in rec.calls if "edgelist" in c[3]]
        mon.check(len(drawn) == 1, "drawing", text)
        mon.equal(
            {frozenset(e) for e in edge_set(drawn[0])},
            {frozenset((o[p], o[(p + 1) % n])) for p in range(n)},
            "drawn-edges",
            text,
        )
        mon.event("drawn")
    mon.seen((n, tuple(w.ravel())))


def vrp(rng, mon, tier):
    n = rng.choice([2, 3, 3, 4, 4, 4, 5, 5, 6, 6, rng.choice([6, 7, 8, 9, 9, 10])])
    arg, w = complete(rng, n)
    depot = rng.randrange(n)
    vehicles = rng.choice([1, 2, 2, 3])
    if depot:
        mon.event("depot-not-0")
    mon.event("vehicles:{}".format(vehicles))
    if rng.random() < 0.6:
        app = VehicleRouting(arg, vehicles, depot)
    else:
        app = VehicleRouting(arg)
        mon.equal((app.num_vehicles, app.depot), (2, 0), "defaults")
        if n <= 5 and rng.random() < 0.7:  # an object already used with other settings
            app.num_vehicles = rng.choice([1, 2, 3])
            app.depot = rng.randrange(n)
            used = app.to_quadratic_program()
            app.interpret(as_result(used, [0] * used.get_num_vars(), rng))
            mon.event("settings-changed")
        app.num_vehicles = vehicles
        app.depot = depot
    mon.equal((app.num_vehicles, app.depot), (vehicles, depot), "settings")
    text = "vrp n={} vehicles={} depot={} {}".format(n, vehicles, depot, w.tolist())
    mon.note(text)
    mon.event("vrp")
    qp = app.to_quadratic_program()
    ref = read(qp)
    arcs = [(i, j) for i in range(n) for j in range(n) if i != j]
    pos = {a: p for p, a in enumerate(arcs)}
    mon.equal(ref.n, len(arcs), "variable-count", text)
    mon.check(all(v.type == B for v in ref.vars), "variable-types", text)
    mon.equal(ref.sense, 1, "sense", text)
    mon.equal(
        [v.name for v in ref.vars], ["x_{}_{}".format(*a) for a in arcs], "variable-names", text
    )

    def routes(x):
        """The routes of x as lists of nodes, or None."""
        nxt = {}
        for a, v in zip(arcs, x):
            if v:
                nxt.setdefault(a[0], []).append(a[1])
        if len(nxt.get(depot, [])) != vehicles:
            return None
        seen, res = set(), []
        for first in nxt[depot]:
            route, at = [depot], first
            while at != depot:
                if at in seen or len(nxt.get(at, [])) != 1:
                    return None
                seen.add(at)
                route.append(at)
                at = nxt[at][0]
            res.append(route + [depot])
        used = sum(len(v) for v in nxt.values())
        if len(seen) != n - 1 or used != sum(len(r) - 1 for r in res):
            return None
        return res

    def feasible(x):
        return routes(x) is not None

    def length(x):
        return sum(w[a] for a, v in zip(arcs, x) if v)

    if n <= 4:
        pts = [tuple(int(a) for a in x) for x in all_bits(len(arcs))]
        mon.event("assignments", len(pts))
        compare(mon, ref, qp, pts, feasible, length, text)
        good = [x for x in pts if feasible(x)]
    else:
        good = set()
        others = [i for i in range(n) if i != depot]
        if n > 6:
            mon.event("vrp:large")
            perms = [rng.sample(others, n - 1) for _ in range(8)]
        else:
            perms = permutations(others)
        for perm in perms:
            for cuts in combinations(range(1, len(others)), vehicles - 1):
                x = [0] * len(arcs)
                edges = (0,) + cuts + (len(others),)
                for a, b in zip(edges, edges[1:]):
                    stops = [depot] + list(perm[a:b]) + [depot]
                    for i, j in zip(stops, stops[1:]):
                        x[pos[i, j]] = 1
                good.add(tuple(x))
        good = sorted(good)
        if n > 5:
            good = rng.sample(good, min(len(good), 20))
        # a route for all vehicles plus a closed subtour elsewhere
        sizes = range(2, len(others))
        loops = [c for size in sizes for c in combinations(others, size)]
        if len(loops) > 30:
            loops = rng.sample(loops, 24)
            # every size of subtour at least once
            loops += [tuple(rng.sample(others, size)) for size in sizes]
        for loop in loops:
            rest = [i for i in others if i not in loop]
            if len(rest) >= vehicles:
                x = [0] * len(arcs)
                for i, j in zip(loop, loop[1:] + loop[:1]):
                    x[pos[i, j]] = 1
                mon.event("subtour-of-{}".format(len(loop)))
                groups = [[] for _ in range(vehicles)]
                for t, i in enumerate(rest):
                    groups[min(t, vehicles - 1)].append(i)
                for g in groups:
                    stops = [depot] + g + [depot]
                    for i, j in zip(stops, stops[1:]):
                        x[pos[i, j]] = 1
                mon.event("subtours")
                compare(mon, ref, qp, [tuple(x)], feasible, length, text)
                mon.check(not feasible(tuple(x)), "oracle", text)
        for x in good:
            pts = [x] + list(flips(rng, x, 6))
            mon.event("mutations", len(pts) - 1)
            compare(mon, ref, qp, pts, feasible, length, text)
    for x in good:
        mon.event("route-sets")
        want = sorted([list(e) for e in zip(r, r[1:])] for r in routes(x))
        got = app.interpret(as_result(qp, x, rng))
        mon.equal(len(got), vehicles, "route-count", text)
        mon.equal(sorted([list(e) for e in r] for r in got), want, "routes", text)
    if good:
        x = rng.choice(good)
        with Drawings() as rec:
            app.draw(as_result(qp, x, rng), pos={i: (i, i) for i in range(n)})
        drawn = [c for c in rec.calls if "edgelist" in c[3]]
        mon.check(len(drawn) == 1, "drawing", text)
        mon.equal(
            sorted(edge_set(drawn[0])),
            sorted(a for a, v in zip(arcs, x) if v),
            "drawn-edges",
            text,
        )
        colours = dict(zip(edge_set(drawn[0]), drawn[0][3]["edge_color"]))
        by_route = [{colours[tuple(e)] for e in r} for r in app.interpret(np.array(x))]
        mon.check(
            all(len(c) == 1 for c in by_route)
            and len({min(c) for c in by_route}) == len(by_route),
            "route-colours",
            lambda: "{} {}".format(colours, text),
        )
        mon.event("drawn")
    mon.seen((n, vehicles, depot, tuple(w.ravel())))


def run_case(rng, mon, k, tier):
    for _ in range(2):
        tsp(rng, mon, tier)
        vrp(rng, mon, tier)
    if k < 3:
        mon.sample({"case": k})
