"""C21: set and number applications model their problem exactly."""
import numpy as np
from qiskit_optimization.applications import ExactCover, Knapsack, NumberPartition, SetPacking

from vp.checks.c19 import as_result, check_program, near, some_assignments

PROPERTY = "C21"
LEVEL = "exploration"
RULE = (
    "random and degenerate instances (zero weights and values, no or ample capacity, repeated and "
    "empty subsets, elements of any label, repeated, negative and zero numbers, odd sums) compared "
    "with the combinatorial definition at every assignment, interpretation included; distinct by "
    "instance"
)
CASES = {"quick": 960, "thorough": 11520}
REQUIRED = {
    "Knapsack": 300,
    "ExactCover": 300,
    "SetPacking": 300,
    "NumberPartition": 300,
    "assignments": 50000,
    "interpreted": 20000,
    "capacity-changed": 50,
    "covers": 100,
    "balanced": 100,
    "input-kept": 1000,
    "large": 200,
}


def subsets(rng, large=False):
    m = rng.choice([1, 2, 3, 4, 6])
    if large:
        m = rng.choice([8, 11, 14])
    labels = rng.choice([list(range(m)), list(range(5, 5 + m)), [3 * i - 4 for i in range(m)]])
    n = rng.choice([11, 15, 20]) if large else rng.choice([1, 2, 3, 4, 5, 6, 7])
    subs = []
    if rng.random() < 0.5:
        # a partition of the elements and more
        pool = list(labels)
        rng.shuffle(pool)
        while pool:
            cut = rng.randint(1, len(pool))
            subs.append(pool[:cut])
            pool = pool[cut:]
    while len(subs) < n:
        if subs and rng.random() < 0.15:
            subs.append(list(rng.choice(subs)))
        else:
            size = rng.randint(1, rng.choice([3, len(labels)]) if large else len(labels))
            subs.append(rng.sample(labels, size))
    rng.shuffle(subs)
    if rng.random() < 0.1:
        subs.append([])
    if rng.random() < 0.1 and subs[0]:
        subs[0] = subs[0] + [subs[0][0]]
    return subs


def names(n):
    return ["x_{}".format(i) for i in range(n)]


def knapsack(rng, mon, large=False):
    n = rng.choice([11, 14, 20, 30]) if large else rng.choice([1, 2, 3, 4, 5, 6, 8])
    kind = rng.choice(["int", "int", "zeros", "frac"])
    if kind == "int":
        values = [rng.randint(0, 12) for _ in range(n)]
        weights = [rng.randint(1, 9) for _ in range(n)]
        cap = rng.randint(0, sum(weights) + 2)
    elif kind == "zeros":
        values = [rng.choice([0, 0, 3]) for _ in range(n)]
        weights = [rng.choice([0, 2, 5]) for _ in range(n)]
        cap = rng.randint(0, sum(weights))
    else:
        values = [rng.randint(0, 40) / 8 for _ in range(n)]
        weights = [rng.randint(1, 30) / 4 for _ in range(n)]
        cap = rng.randint(0, 4 * n) / 4
    args = list(values), list(weights)
    app = Knapsack(values, weights, cap)
    if rng.random() < 0.3:
        mon.event("capacity-changed")
        app.to_quadratic_program()
        cap = rng.randint(0, 20)
        app.max_weight = cap
    mon.equal(app.max_weight, cap, "capacity")
    text = "knapsack {} {} {}".format(values, weights, cap)
    qp = app.to_quadratic_program()
    feasible = lambda x: sum(w for w, a in zip(weights, x) if a) <= cap
    pts, _ = check_program(
        mon,
        qp,
        n,
        -1,
        feasible,
        lambda x: sum(v for v, a in zip(values, x) if a),
        text,
        names(n),
        some_assignments(rng, n, feasible) if large else None,
    )
    mon.equal((values, weights), args, "input-modified", text)
    return app, qp, pts, lambda x: [i for i in range(n) if x[i]], text


def exact_cover(rng, mon, large=False):
    subs = subsets(rng, large)
    copy = [list(s) for s in subs]
    app = ExactCover(subs)
    # a cover found by going through the subsets
    first, left = set(), {e for s in subs for e in s}
    for i in sorted(range(len(subs)), key=lambda i: -len(set(subs[i]))):
        if subs[i] and set(subs[i]) <= left:
            left -= set(subs[i])
            first.add(i)
    if left:
        first = set()
    universe = {e for s in subs for e in s}
    text = "exact cover {}".format(subs)
    qp = app.to_quadratic_program()
    feasible = lambda x: all(sum(e in s for s, a in zip(subs, x) if a) == 1 for e in universe)
    apart = lambda x: all(sum(e in s for s, a in zip(subs, x) if a) <= 1 for e in universe)
    some = some_assignments(rng, len(subs), apart) if large else None
    if large and first:
        x = tuple(int(i in first) for i in range(len(subs)))
        some += [x] + list(near(rng, x, 8))
    pts, feas = check_program(
        mon,
        qp,
        len(subs),
        1,
        feasible,
        sum,
        text,
        names(len(subs)),
        some,
    )
    if feas.any():
        mon.event("covers")
    mon.equal(subs, copy, "input-modified", text)
    return app, qp, pts, lambda x: [s for s, a in zip(copy, x) if a], text


def set_packing(rng, mon, large=False):
    subs = subsets(rng, large)
    copy = [list(s) for s in subs]
    app = SetPacking(subs)
    universe = {e for s in subs for e in s}
    text = "set packing {}".format(subs)
    qp = app.to_quadratic_program()
    feasible = lambda x: all(sum(e in s for s, a in zip(subs, x) if a) <= 1 for e in universe)
    pts, _ = check_program(
        mon,
        qp,
        len(subs),
        -1,
        feasible,
        sum,
        text,
        names(len(subs)),
        some_assignments(rng, len(subs), feasible) if large else None,
    )
    mon.equal(subs, copy, "input-modified", text)
    return app, qp, pts, lambda x: [s for s, a in zip(copy, x) if a], text


def partition(rng, mon, large=False):
    n = rng.choice([11, 14, 20, 30]) if large else rng.choice([1, 2, 3, 4, 5, 6, 8])
    kind = rng.choice(["pos", "pos", "mirror", "signed"])
    if kind == "pos":
        nums = [rng.randint(1, 12) for _ in range(n)]
    elif kind == "mirror":
        nums = [rng.randint(1, 9) for _ in range(max(1, n // 2))]
        nums = nums + [sum(nums)]
    else:
        nums = [rng.randint(-5, 7) for _ in range(n)]
    half = None
    if large and rng.random() < 0.7:
        # two parts of the same sum
        nums = [rng.randint(1, 10 ** 6) for _ in range(n)]
        sides = [rng.randint(0, 1) for _ in nums]
        diff = sum(v if a else -v for v, a in zip(nums, sides))
        nums.append(abs(diff))
        sides.append(int(diff < 0))
        order = list(range(len(nums)))
        rng.shuffle(order)
        nums, half = [nums[i] for i in order], tuple(sides[i] for i in order)
    else:
        rng.shuffle(nums)
    copy = list(nums)
    app = NumberPartition(nums)
    text = "number partition {}".format(nums)
    qp = app.to_quadratic_program()
    feasible = lambda x: sum(v if a else -v for v, a in zip(nums, x)) == 0
    some = None
    if large:
        some = some_assignments(rng, len(nums), feasible)
        if half is not None:
            some += [half] + list(near(rng, half, 8))
    pts, feas = check_program(
        mon,
        qp,
        len(nums),
        None,
        feasible,
        lambda x: 0,
        text,
        names(len(nums)),
        some,
    )
    if feas.any():
        mon.event("balanced")
    mon.equal(nums, copy, "input-modified", text)
    return (
        app,
        qp,
        pts,
        lambda x: [[v for v, a in zip(copy, x) if not a], [v for v, a in zip(copy, x) if a]],
        text,
    )


def run_case(rng, mon, k, tier):
    for name, make in (
        ("Knapsack", knapsack),
        ("ExactCover", exact_cover),
        ("SetPacking", set_packing),
        ("NumberPartition", partition),
    ):
        large = k % 8 == 7
        if large:
            mon.event("large")
        app, qp, pts, want, text = make(rng, mon, large)
        mon.event(name)
        mon.event("input-kept")
        mon.note(text)
        for x in pts:
            got = app.interpret(as_result(qp, x, rng))
            mon.event("interpreted")
            mon.equal([list(g) if isinstance(g, (list, np.ndarray)) else g for g in got],
                      want(x), "interpretation", "{} {}".format(x, text))
        mon.seen(text)
    if k < 3:
        mon.sample({"instance": text})
