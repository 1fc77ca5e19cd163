"""C18: Grover search returns the best value it measured."""
import math
from fractions import Fraction as F

import numpy as np
from qiskit import BasicAer
from qiskit.quantum_info import Statevector
from qiskit.utils import QuantumInstance
from qiskit_optimization.algorithms import GroverOptimizer
from qiskit_optimization.converters import QuadraticProgramToQubo

from vp import gen
from vp.checks.c10 import all_bits, problem
from vp.ref import B, build, read
from vp.results import check_result, points_equal
from vp.stubs import come_up_empty

PROPERTY = "C18"
LEVEL = "exploration"
RULE = (
    "random small problems searched with a quantum instance under the harness's control: every "
    "circuit is simulated, its state compared with the objective relative to the best measurement "
    "so far and with ideal amplification, and the counts returned are chosen among the possible "
    "outcomes (worst, best, repeated, mixed); real statevector runs watched the same way; "
    "non-trivial: a run with an improvement after the first; distinct by problem and outcomes"
)
CASES = {"quick": 480, "thorough": 6000}
TIMEOUT = {"quick": 200, "thorough": 600}
TECHNIQUE = "runtime monitoring with a controlled measurement boundary"
REQUIRED = {
    "bare-backend": 6,
    "exhausted": 15,
    "search": 150,
    "circuit": 600,
    "rotated": 60,
    "improvement": 100,
    "mode:counts": 80,
    "mode:statevector": 30,
    "maximize": 50,
    "converted": 20,
    "zero-shortcut": 5,
    "mixed-counts": 40,
    "noisy": 40,
    "noisy:one-key-many-values": 30,
}
ASSUMPTIONS = ["integer objectives that fit in the value register, up to 4 key qubits"]


class Answer:
    def __init__(self, counts=None, vector=None):
        self.counts, self.vector = counts, vector

    def get_counts(self, *_):
        return dict(self.counts)

    def get_statevector(self, *_, **__):
        return np.array(self.vector)


class Instance(QuantumInstance):
    """Simulates each circuit and hands out what `pick` chooses among the outcomes."""

    def __init__(self, counts, pick, shots):
        name = "qasm_simulator" if counts else "statevector_simulator"
        super().__init__(BasicAer.get_backend(name), shots=shots)
        self.by_counts = counts
        self.pick = pick
        self.runs = []

    def execute(self, circuits, *_, **__):
        come_up_empty(self)
        qc = circuits[0] if isinstance(circuits, list) else circuits
        bare = qc.copy()
        bare.remove_final_measurements()
        vec = Statevector.from_instruction(bare).data
        run = {"ops": dict(qc.count_ops()), "state": vec, "qubits": bare.num_qubits, "circuit": qc}
        self.runs.append(run)
        if not self.by_counts:
            return Answer(vector=vec)
        probs = np.abs(vec) ** 2
        support = [int(i) for i in np.nonzero(probs > 1e-7)[0]]
        run["counts"] = self.pick(self.runs, support, bare.num_qubits)
        counts = {format(i, "0{}b".format(bare.num_qubits)): c for i, c in run["counts"].items()}
        return Answer(counts=counts)


def decode(index, n_key, n_val):
    """(key as tuple of bits, value) of a basis state."""
    key = tuple((index >> i) & 1 for i in range(n_key))
    val = 0
    for i in range(n_val):
        val = 2 * val + ((index >> (n_key + i)) & 1)
    if val >= 2 ** (n_val - 1):
        val -= 2 ** n_val
    return key, val


def small(rng):
    """A problem and its QUBO, with integer values, at most 4 binary variables."""
    while True:
        if rng.random() < 0.5:
            ref = gen.qp(
                rng,
                n=rng.choice([1, 2, 2, 3, 3, 4]),
                types=(B,),
                max_lin=0,
                max_quad=0,
                style=rng.choice(["small", "sparse", "pos"]),
            )
        else:
            ref = problem(rng, 4)
        if rng.random() < 0.15:
            ref.const = F(0)
        elif not ref.const and rng.random() < 0.5:
            ref.const = F(rng.randint(-6, 6))
        qubo = read(QuadraticProgramToQubo().convert(build(ref, rng)))
        if qubo.n > 4:
            continue
        vals = qubo.sense * qubo.values(all_bits(qubo.n))
        if np.any(vals != np.round(vals)) or vals.max() - vals.min() > 60 or abs(vals).max() > 60:
            continue
        return ref, qubo, {
            tuple(int(b) for b in x): int(v) for x, v in zip(all_bits(qubo.n), vals)
        }


def check_state(mon, run, table, threshold, n_key, n_val, text):
    """The prepared state holds f - threshold, and the better assignments are amplified."""
    vec = run["state"]
    probs = np.abs(vec) ** 2
    mon.check(run["qubits"] >= n_key + n_val, "circuit-size", text)
    by_key = {}
    for i in np.nonzero(probs > 1e-7)[0]:
        key, val = decode(int(i), n_key, n_val)
        mon.equal(
            val,
            table[key] - threshold,
            "prepared-value",
            "key {} threshold {} {}".format(key, threshold, text),
        )
        by_key[key] = by_key.get(key, 0.0) + probs[i]
    good = [k for k in table if table[k] < threshold]
    share = len(good) / len(table)
    angle = math.asin(math.sqrt(share))
    seen = sum(by_key.get(k, 0.0) for k in good)
    for power in range(0, 12):
        if abs(math.sin((2 * power + 1) * angle) ** 2 - seen) < 1e-6:
            break
    else:
        mon.check(False, "amplification", "share {} became {} {}".format(share, seen, text))
    if power > 0:
        mon.event("rotated")
    for part in (good, [k for k in table if k not in good]):
        if part:
            mean = (seen if part is good else 1 - seen) / len(part)
            mon.check(
                all(abs(by_key.get(k, 0.0) - mean) < 1e-6 for k in part),
                "uneven",
                lambda: "{} {}".format(by_key, text),
            )


def picker(rng, style, table, n_key, n_val, shots):
    def value(i):
        return table[decode(i, n_key, n_val)[0]]

    def pick(runs, support, n):
        how = style if style != "varied" else rng.choice(["any", "worst", "best", "ties"])
        if how == "worst":
            top = max(value(i) for i in support)
            return {rng.choice([i for i in support if value(i) == top]): shots}
        if how == "best":
            low = min(value(i) for i in support)
            return {rng.choice([i for i in support if value(i) == low]): shots}
        if how == "slow":  # improve by as little as possible
            last = min(
                (value(i) for r in runs[:-1] for i in r["counts"]), default=10 ** 9
            )
            lower = [value(i) for i in support if value(i) < last]
            aim = max(lower) if lower else max(value(i) for i in support)
            return {rng.choice([i for i in support if value(i) == aim]): shots}
        if how == "any":
            return {rng.choice(support): shots}
        if how == "ties":
            val = value(rng.choice(support))
            some = [i for i in support if value(i) == val]
        else:
            some = list(support)
        some = rng.sample(some, rng.randint(1, min(len(some), shots)))
        cuts = sorted(rng.sample(range(1, shots), len(some) - 1))
        return {i: b - a for i, a, b in zip(some, [0] + cuts, cuts + [shots])}

    return pick


def noisy_case(rng, mon):
    """Outcomes of a noisy device: any bits; what is reported of an assignment stays true."""
    ref, qubo, table = small(rng)
    n_key, n_val = qubo.n, rng.choice([3, 4, 5])
    shots = rng.choice([10, 64, 1000])

    def pick(runs, support, n):
        some = list(support)
        for _ in range(rng.choice([0, 1, 3])):
            i = rng.choice(support)
            for _ in range(rng.choice([1, 1, 2])):
                i ^= 1 << rng.randrange(n)
            some.append(i)
        if len(runs) > 25:
            # nothing that looks like an improvement
            keep = [i for i in some if decode(i, n_key, n_val)[1] >= 0]
            some = keep or [rng.choice(support) & (2 ** n_key - 1)]
        some = sorted(set(some))
        some = rng.sample(some, rng.randint(1, min(len(some), shots)))
        cuts = sorted(rng.sample(range(1, shots), len(some) - 1))
        return {i: b - a for i, a, b in zip(some, [0] + cuts, cuts + [shots])}

    inst = Instance(True, pick, shots)
    opt = GroverOptimizer(n_val, num_iterations=rng.choice([1, 3, 6]), quantum_instance=inst)
    text = "noisy value qubits {} {}".format(n_val, ref)
    mon.note(text)
    res = opt.solve(build(ref, rng))
    mon.event("noisy")
    check_result(mon, res, ref, build(ref, rng), text)
    found = round(float(qubo.sense * res.intermediate_fval), 6)
    conv = QuadraticProgramToQubo()
    conv.convert(build(ref, rng))
    mon.check(
        any(
            points_equal(res.x, tuple(float(a) for a in conv.interpret(np.array(key, dtype=float))))
            for key in table
            if table[key] == found
        ),
        "point",
        lambda: "{} {} {}".format(res.x, found, text),
    )
    mon.equal(
        [dict(res.operation_counts[i]) for i in range(len(res.operation_counts))],
        [run["ops"] for run in inst.runs],
        "operation-counts",
        text,
    )
    for run in inst.runs:
        keys = [i & (2 ** n_key - 1) for i in run["counts"]]
        if len(set(keys)) < len(keys):
            mon.event("noisy:one-key-many-values")
    check_samples(mon, res, qubo, table, inst, [], False, text)


def run_case(rng, mon, k, tier):
    if k % 6 == 5:
        return noisy_case(rng, mon)
    ref, qubo, table = small(rng)
    n_key = qubo.n
    reach = max(table.values()) - min(min(table.values()), 0)
    reach = max(reach, max(table.values()) - min(table.values()))
    lows = max(0, max(table.values())) - min(table.values())
    n_val = 1
    while 2 ** (n_val - 1) - 1 < reach or 2 ** (n_val - 1) < lows:
        n_val += 1
    n_val += rng.choice([0, 0, 1])
    if n_key + n_val > (10 if tier == "quick" else 11):
        mon.event("too-large")
        return
    counts = k % 3 != 0
    style = rng.choice(["slow", "any", "any", "worst", "best", "varied", "varied", "mixed"])
    n_iter = rng.choice([1, 2, 3, 3, 5, 8, 12])
    shots = rng.choice([1, 64, 100, 1024])
    inst = Instance(counts, picker(rng, style, table, n_key, n_val, shots), shots)
    if rng.random() < 0.7:
        opt = GroverOptimizer(n_val, num_iterations=n_iter, quantum_instance=inst)
    else:
        other = BasicAer.get_backend("statevector_simulator" if counts else "qasm_simulator")
        first = rng.choice([None, other])
        opt = GroverOptimizer(n_val, num_iterations=n_iter, quantum_instance=first)
        if n_key <= 3 and rng.random() < 0.4:
            # a bare backend, exchanged for another, and run on it
            mon.event("bare-backend")
            opt.quantum_instance = backend = BasicAer.get_backend("statevector_simulator")
            mon.check(opt.quantum_instance.backend is backend, "backend", str(first))
            check_result(mon, opt.solve(build(ref, rng)), ref, build(ref, rng), "bare")
        opt.quantum_instance = inst
    text = "{} outcomes {} value qubits {} iterations {} {}".format(
        "counts" if counts else "statevector", style, n_val, n_iter, ref
    )
    mon.note(text)
    mon.event("mode:counts" if counts else "mode:statevector")
    if ref.sense == -1:
        mon.event("maximize")
    if ref.n != n_key or ref.cons:
        mon.event("converted")
    qp = build(ref, rng)
    res = opt.solve(qp)
    mon.event("search")
    check_result(mon, res, ref, qp, text)

    # what was measured: `outcome` of a run is known if all its counts have one value
    known = True
    best = None
    threshold = 0
    improvements = []
    values_seen = set()
    after = 0
    for r, run in enumerate(inst.runs):
        mon.event("circuit")
        if not known or not counts:
            # read the threshold in use off the state; it must be one for all assignments
            i = int(np.argmax(np.abs(run["state"])))
            key, val = decode(i, n_key, n_val)
            now = table[key] - val
            if r > 0:
                mon.check(
                    now in table.values() and (r == 1 or now <= threshold),
                    "threshold",
                    "{} after {} {}".format(now, threshold, text),
                )
                if r == 1 or now < threshold:
                    mon.event("improvement", int(r > 1))
            else:
                mon.equal(now, 0, "first-threshold", text)
            threshold = now
        check_state(mon, run, table, threshold, n_key, n_val, "run {} {}".format(r, text))
        if counts:
            vals = {table[decode(i, n_key, n_val)[0]] for i in run["counts"]}
            values_seen |= vals
            if len(vals) > 1:
                known = False
                mon.event("mixed-counts")
            elif len(run["counts"]) > 1:
                mon.event("mixed-counts")
            if known:
                (val,) = vals
                if best is None or val < best:
                    if best is not None:
                        mon.event("improvement")
                    best = val
                    threshold = val
                    improvements.append(r)
                    after = 0
                else:
                    after += 1
            mon.check(
                ref.sense * res.intermediate_fval <= max(vals) + 1e-9,
                "worse-than-measured",
                lambda: "value {} measured {} {}".format(res.intermediate_fval, vals, text),
            )
    shortcut = qubo.const == 0
    found = round(float(qubo.sense * res.intermediate_fval), 6)
    mon.equal(found, round(found), "integer-value", text)
    mon.check(int(round(found)) in table.values(), "impossible-value", text)
    want = None
    if counts and known:
        want = best
        mon.equal(res.threshold, best, "threshold-reported", text)
        room = len(inst.runs) * math.ceil(2 ** (n_key / 2)) < 79
        if room:
            last = inst.runs[improvements[-1] + 1 :]
            distinct = {decode(i, n_key, n_val)[0] for run in inst.runs for i in run["counts"]}
            mon.check(
                after == n_iter or (after < n_iter and len(distinct) == len(table)),
                "iterations",
                lambda: "{} runs without improvement {}".format(len(last), text),
            )
            if all(len(run["counts"]) == 1 for run in inst.runs):
                # a search that has seen every assignment in vain is over
                idle = set()
                for r, run in enumerate(inst.runs[:-1]):
                    if r not in improvements:
                        idle |= {decode(i, n_key, n_val)[0] for i in run["counts"]}
                mon.event("one-key-runs")
                if len(distinct) == len(table):
                    mon.event("exhausted")
                mon.check(len(idle) < len(table), "goes-on-when-all-seen", text)
    elif not counts or not known:
        want = int(res.threshold)
        mon.check(want <= threshold or len(inst.runs) == 1, "threshold-reported", text)
        if counts:
            mon.check(want in values_seen, "threshold-not-measured", text)
    if want is not None:
        if shortcut and want >= 0:
            mon.event("zero-shortcut")
            mon.equal(found, 0, "value-of-zero", text)
        else:
            mon.equal(found, want, "not-the-best", text)
    # the point returned is the reading of an assignment of that value
    conv = QuadraticProgramToQubo()
    conv.convert(build(ref, rng))
    readings = [
        tuple(float(a) for a in conv.interpret(np.array(key, dtype=float)))
        for key in table
        if table[key] == found
    ]
    mon.check(
        any(points_equal(res.x, y) for y in readings),
        "point",
        lambda: "{} not among {} {}".format(res.x, readings, text),
    )
    mon.equal(res.n_input_qubits, n_key, "input-qubits", text)
    mon.equal(res.n_output_qubits, n_val, "output-qubits", text)
    mon.equal(
        [dict(res.operation_counts[i]) for i in range(len(res.operation_counts))],
        [run["ops"] for run in inst.runs],
        "operation-counts",
        text,
    )
    check_samples(mon, res, qubo, table, inst, improvements, counts and known, text)
    if len(improvements) > 1 or not known:
        mon.seen((ref.key(), [sorted(r.get("counts", {}).items()) for r in inst.runs]))
    if k < 3:
        mon.sample({"case": text[:300], "runs": len(inst.runs), "x": [float(v) for v in res.x]})


def check_samples(mon, res, qubo, table, inst, improvements, known, text):
    """The raw samples are the distribution of the last run with an improvement."""
    n_key = qubo.n
    got = {}
    order = []
    for s in res.raw_samples:
        key = tuple(int(v) for v in s.x)
        mon.equal(len(key), n_key, "raw-sample-length", text)
        mon.check(key not in got, "raw-sample-twice", text)
        got[key] = s.probability
        mon.close(qubo.sense * s.fval, table[key], "raw-sample-value", text)
        order.append(table[key])
    mon.equal(order, sorted(order), "raw-sample-order", text)
    mon.check(abs(sum(got.values()) - 1) < 1e-4, "raw-sample-total", lambda: str(got))

    def distribution(run):
        if "counts" in run:
            total = sum(run["counts"].values())
            pairs = [(i, c / total) for i, c in run["counts"].items()]
        else:
            pairs = list(enumerate(np.abs(run["state"]) ** 2))
        dist = {}
        for i, p in pairs:
            key = tuple((i >> b) & 1 for b in range(n_key))
            dist[key] = dist.get(key, 0.0) + p
        return {key: p for key, p in dist.items() if p > 1e-5}

    def matches(run):
        dist = distribution(run)
        return all(
            abs(dist.get(key, 0.0) - got.get(key, 0.0)) < 3e-6 + 1e-9 for key in set(dist) | set(got)
        )

    runs = [inst.runs[improvements[-1]]] if known else inst.runs
    mon.check(
        any(matches(run) for run in runs),
        "raw-samples",
        lambda: "{} is not {} {}".format(got, [distribution(run) for run in runs][:4], text),
    )
