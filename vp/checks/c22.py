"""C22: instance files and random instances are read and made as specified."""
import math
import os
import tempfile
from itertools import combinations

import networkx as nx
import numpy as np
from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.applications import (
    GraphPartition,
    Maxcut,
    Tsp,
    VehicleRouting,
    VertexCover,
)

PROPERTY = "C22"
LEVEL = "exploration"
RULE = (
    "generated Gset files (sparse and dense, isolated vertices, negative and zero weights, both "
    "orientations) and TSPLIB files (spacing, header order, comments, permuted, fractional, "
    "negative and coinciding coordinates, with and without EOF, wrong types) read back and compared "
    "with what was written; random instances for many sizes, ranges and seeds; distinct by file"
)
CASES = {"quick": 6000, "thorough": 72000}
REQUIRED = {
    "gset": 500,
    "gset:used": 100,
    "tsplib": 500,
    "tsplib:eof": 100,
    "tsplib:no-eof": 100,
    "tsplib:permuted": 100,
    "tsplib:refused": 50,
    "random-tsp": 300,
    "random-vrp": 300,
    "random-graph": 300,
    "seed:0": 50,
    "gset-result": 300,
}


def gset(rng, mon, tmp):
    n = rng.choice([1, 2, 3, 5, 8, 13, 30])
    dens = rng.choice([0.0, 0.2, 0.6, 1.0])
    kind = rng.choice(["one", "sign", "any"])
    edges = {}
    for e in combinations(range(n), 2):
        if rng.random() < dens:
            edges[e] = {"one": 1, "sign": rng.choice([1, -1]), "any": rng.randint(-20, 20)}[kind]
    items = list(edges.items())
    rng.shuffle(items)
    path = os.path.join(tmp, "g")
    sep = rng.choice([" ", "  ", "\t"])
    with open(path, "w", encoding="ascii") as file:
        file.write("{}{}{}\n".format(n, sep, len(items)))
        for (i, j), w in items:
            i, j = (i, j) if rng.random() < 0.6 else (j, i)
            file.write(sep.join(str(v) for v in (i + 1, j + 1, w)) + rng.choice(["\n", " \n"]))
    want = np.zeros((n, n))
    for (i, j), w in edges.items():
        want[i, j] = want[j, i] = w
    got = Maxcut.parse_gset_format(path)
    text = "gset n={} {}".format(n, edges)
    mon.event("gset")
    mon.check(
        isinstance(got, np.ndarray) and got.shape == (n, n) and np.array_equal(got, want),
        "gset-matrix",
        lambda: "{} {}".format(got, text),
    )
    if edges and n <= 8 and all(edges.values()):
        mon.event("gset:used")
        graph = Maxcut(got).graph
        mon.equal(
            {(min(e), max(e)): float(graph.edges[e]["weight"]) for e in graph.edges},
            {e: float(w) for e, w in edges.items()},
            "gset-graph",
            text,
        )
    mon.seen(text)
    x = np.array([rng.randint(0, 1) for _ in range(n)])
    mon.event("gset-result")
    mon.equal(
        {int(i): int(v) for i, v in Maxcut.get_gset_result(x).items()},
        {i + 1: 1 - int(a) for i, a in enumerate(x)},
        "gset-result",
        text,
    )


def check_distances(mon, graph, pos, text):
    n = len(pos)
    mon.equal(sorted(graph.nodes), list(range(n)), "nodes", text)
    mon.equal(graph.number_of_edges(), n * (n - 1) // 2, "edges", text)
    for i, j in combinations(range(n), 2):
        dist = math.hypot(pos[i][0] - pos[j][0], pos[i][1] - pos[j][1])
        w = float(graph.edges[i, j]["weight"])
        mon.check(
            w == int(w) and abs(w - dist) <= 0.5 + 1e-9,
            "distance",
            lambda: "{}-{} {} instead of {} {}".format(i, j, w, dist, text),
        )


def tsplib(rng, mon, tmp):
    n = rng.choice([1, 2, 3, 4, 7, 12])
    kind = rng.choice(["int", "int", "frac", "neg", "same"])
    pos = []
    for _ in range(n):
        if kind == "int":
            p = (rng.randint(0, 100), rng.randint(0, 100))
        elif kind == "frac":
            p = (rng.randint(0, 4000) / 16, rng.randint(0, 4000) / 16)
        elif kind == "neg":
            p = (rng.randint(-50, 50), rng.randint(-500, 500))
        else:
            p = (rng.randint(0, 2), 7)
        pos.append(p)
    colon = rng.choice([": ", " : ", ":", " :  "])
    typ = rng.choice(["TSP"] * 25 + ["ATSP", "CVRP", "TSPX"])
    wtype = rng.choice(["EUC_2D"] * 30 + ["GEO", "EXPLICIT", "EUC_3D", "CEIL_2D"])
    head = [
        "NAME{}{}".format(colon, rng.choice(["berlin", "a280", "my tsp", "EOF"])),
        "TYPE{}{}".format(colon, typ),
        "DIMENSION{}{}".format(colon, n),
        "EDGE_WEIGHT_TYPE{}{}".format(colon, wtype),
    ]
    if rng.random() < 0.6:
        head.append("COMMENT{}{}".format(colon, rng.choice(["52 locations", "NAME: x", "1 2 3"])))
    if rng.random() < 0.2:
        head.append("DISPLAY_DATA_TYPE{}COORD_DISPLAY".format(colon))
    if rng.random() < 0.5:
        rng.shuffle(head)
    order = list(range(n))
    if rng.random() < 0.5:
        rng.shuffle(order)
        mon.event("tsplib:permuted")
    style = rng.choice(["plain", "exp", "pad"])

    def show(v):
        if style == "exp":
            return "{:.10e}".format(v)
        return repr(float(v)) if rng.random() < 0.5 or v != int(v) else str(int(v))

    lines = head + ["NODE_COORD_SECTION"]
    pad = "  " if style == "pad" else ""
    for i in order:
        lines.append("{}{} {}{} {}".format(pad, i + 1, show(pos[i][0]), pad, show(pos[i][1])))
    eof = rng.random() < 0.5
    if eof:
        lines.append(rng.choice(["EOF", "EOF "]))
        if rng.random() < 0.3:
            lines.append("")
    end = rng.choice(["\n", "\n", ""])
    path = os.path.join(tmp, "t.tsp")
    with open(path, "w", encoding="ascii") as file:
        file.write("\n".join(lines) + end)
    text = "tsplib {}".format(lines)
    mon.note(text)
    if typ != "TSP" or wtype != "EUC_2D":
        mon.event("tsplib:refused")
        mon.raises(
            QiskitOptimizationError,
            lambda: Tsp.parse_tsplib_format(path),
            "tsplib-not-refused",
            text,
        )
        return
    mon.event("tsplib")
    mon.event("tsplib:eof" if eof else "tsplib:no-eof")
    app = Tsp.parse_tsplib_format(path)
    check_distances(mon, app.graph, pos, text)
    for i in range(n):
        got = app.graph.nodes[i]["pos"]
        mon.check(
            abs(got[0] - pos[i][0]) < 1e-6 and abs(got[1] - pos[i][1]) < 1e-6,
            "coordinates",
            lambda: "{} {} {}".format(i, got, text),
        )
    mon.seen(text)


def described(graph):
    return (
        sorted((i, tuple(float(a) for a in d["pos"])) for i, d in graph.nodes(data=True)),
        sorted((min(e[:2]), max(e[:2]), float(e[2]["weight"])) for e in graph.edges(data=True)),
    )


def random_instances(rng, mon):
    n = rng.choice([1, 2, 3, 4, 6, 10])
    low = rng.choice([0, 0, -50, 10, 1000])
    high = low + rng.choice([0, 1, 10, 100, 400])
    seed = rng.choice([0, 0, 1, 123, 2 ** 31 - 1, rng.randrange(10 ** 6)])
    if seed == 0:
        mon.event("seed:0")
    text = "n={} [{},{}] seed={}".format(n, low, high, seed)

    def judge(make, name):
        app = make(seed)
        mon.event("random-" + name)
        graph = app.graph
        pos = [graph.nodes[i]["pos"] for i in range(n)]
        mon.check(
            all(low <= c <= high for p in pos for c in p), "range", "{} {}".format(name, text)
        )
        check_distances(mon, graph, pos, "{} {}".format(name, text))
        # anything may have drawn random numbers in between
        np.random.rand(3)
        rng.random()
        make(seed + 1)
        mon.equal(
            described(make(seed).graph), described(graph), "same-seed", "{} {}".format(name, text)
        )
        if n >= 3 and high - low >= 100:
            mon.check(
                described(make(seed + 1).graph) != described(graph)
                or described(make(seed + 2).graph) != described(graph),
                "seed-ignored",
                "{} {}".format(name, text),
            )
        return app

    judge(lambda s: Tsp.create_random_instance(n, low, high, seed=s), "tsp")
    veh, depot = rng.randint(1, 3), rng.randrange(n)
    app = judge(
        lambda s: VehicleRouting.create_random_instance(
            n, low, high, seed=s, num_vehicle=veh, depot=depot
        ),
        "vrp",
    )
    mon.equal((app.num_vehicles, app.depot), (veh, depot), "random-vrp", text)
    # default range
    for cls in (Tsp, VehicleRouting):
        app = cls.create_random_instance(n, seed=seed)
        mon.check(
            all(0 <= c <= 100 for i in range(n) for c in app.graph.nodes[i]["pos"]),
            "default-range",
            text,
        )
        mon.equal(
            described(app.graph),
            described(cls.create_random_instance(n, 0, 100, seed).graph),
            "default-range",
            text,
        )
    mon.equal((app.num_vehicles, app.depot), (2, 0), "random-vrp-defaults", text)
    # random graphs
    edges = rng.randint(0, n * (n - 1) // 2)
    cls = rng.choice([Maxcut, VertexCover, GraphPartition])
    graph = cls.random_graph(n, edges, seed)
    mon.event("random-graph")
    mon.check(isinstance(graph, nx.Graph), "random-graph-type", text)
    mon.equal(
        (sorted(graph.nodes), graph.number_of_edges()),
        (list(range(n)), edges),
        "random-graph-size",
        text,
    )
    cls.random_graph(n, edges, seed + 1)
    mon.equal(
        sorted(cls.random_graph(n, edges, seed).edges),
        sorted(graph.edges),
        "random-graph-seed",
        text,
    )


def run_case(rng, mon, k, tier):
    with tempfile.TemporaryDirectory(prefix="vp_c22_") as tmp:
        gset(rng, mon, tmp)
        tsplib(rng, mon, tmp)
        if rng.random() < 0.5:
            tsplib(rng, mon, tmp)
    random_instances(rng, mon)
    if k < 3:
        mon.sample({"case": k})
