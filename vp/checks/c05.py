"""C05: Ising Hamiltonian and binary program have the same value at every assignment."""
from fractions import Fraction as F

import numpy as np
from qiskit.opflow import I as OpI
from qiskit.opflow import ListOp, PauliOp, PauliSumOp, SummedOp, X, Y, Z
from qiskit.quantum_info import Pauli, SparsePauliOp
from qiskit_optimization import QiskitOptimizationError, QuadraticProgram

from vp import gen
from vp.ref import B, C, I, RefQP, RefVar, add_var, build, clean, evaluate_many, frac, read, show

PROPERTY = "C05"
LEVEL = "exploration"
RULE = (
    "random unconstrained binary programs (1-9 variables) whose Hamiltonian is diagonalised term by "
    "term at every assignment, and random diagonal Hamiltonians in all operator representations "
    "loaded into used programs and compared at every assignment; non-trivial: at least one "
    "quadratic term; distinct by coefficients"
)
CASES = {"quick": 6090, "thorough": 73080}
REQUIRED = {
    "to:large": 60,
    "from:large": 60,
    "to:assignments": 20000,
    "to:max": 200,
    "from:assignments": 10000,
    "from:identity": 100,
    "from:linear": 100,
    "from:phase": 50,
    "refused": 300,
    "roundtrip": 300,
}
ASSUMPTIONS = ["Hamiltonians as sums of Pauli terms (no matrix operators, lists of operators)"]


def bits(n):
    """All assignments, row r: variable i is bit i of r; a sample of them if n is large."""
    if n > 9:
        rng = np.random.RandomState(n)
        return np.vstack([np.zeros(n), np.ones(n), np.eye(n), rng.randint(0, 2, (200, n))])
    rows = np.arange(2 ** n)
    return ((rows[:, None] >> np.arange(n)) & 1).astype(float)


def terms(op):
    """[(coefficient, z, x)] of an operator over Pauli terms, qubit i at position i."""
    op = op.to_pauli_op() if not isinstance(op, PauliOp) else op
    if isinstance(op, PauliOp):
        todo = [(1.0, op)]
    else:
        todo = [(complex(op.coeff), o) for o in op.oplist]
    res = []
    while todo:
        coeff, o = todo.pop()
        if isinstance(o, SummedOp):
            todo.extend((coeff * complex(o.coeff), p) for p in o.oplist)
            continue
        o = o.to_pauli_op()
        if isinstance(o, SummedOp):
            todo.append((coeff, o))
            continue
        pauli = o.primitive
        # the matrix of a Pauli is the product of its letters times its phase
        res.append(
            (
                coeff * complex(o.coeff) * (-1j) ** int(pauli.phase),
                [bool(b) for b in pauli.z],
                [bool(b) for b in pauli.x],
            )
        )
    return res


def energies(mon, op, n, pts):
    vals = np.zeros(len(pts), dtype=complex)
    for coeff, z, x in terms(op):
        mon.check(not any(x), "to-not-diagonal", str(op))
        sign = np.ones(len(pts))
        for i in range(n):
            if z[i]:
                sign = sign * (1 - 2 * pts[:, i])
        vals += coeff * sign
    mon.check(np.allclose(vals.imag, 0), "to-not-real", str(op))
    return vals.real


def random_program(rng, n):
    ref = RefQP("q")
    ref.vars = [RefVar(name, B, 0, 1) for name in gen.names(rng, n)]
    style = rng.choice(gen.EXACT_STYLES)
    ref.sense = rng.choice([1, -1])
    ref.const = gen.coef(rng, style) if rng.random() < 0.7 else F(0)
    if rng.random() < 0.9:
        ref.lin = gen.lin(rng, n, style)
    if rng.random() < 0.9:
        ref.quad = gen.quad(rng, n, style, diag=rng.choice([0, 0.5, 1]))
    if rng.random() < 0.1:
        # linear and square terms that cancel on binaries
        i = rng.randrange(n)
        v = F(rng.randint(1, 5))
        ref.lin[i] = v
        ref.quad[i, i] = -v
    return ref


def check_to(rng, mon):
    n = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 9, rng.choice([9, 11, 13, 20])])
    if n > 10:
        mon.event("to:large")
    ref = random_program(rng, n)
    qp = build(ref, rng)
    op, offset = qp.to_ising()
    pts = bits(n)
    want = ref.sense * ref.values(pts)
    mon.equal(op.num_qubits, n, "to-qubits", repr(ref))
    got = energies(mon, op, n, pts) + offset
    mon.event("to:assignments", len(pts))
    if ref.sense == -1:
        mon.event("to:max")
    mon.check(
        np.allclose(got, want, rtol=1e-9, atol=1e-9),
        "to-energy",
        lambda: "{} got {} want {}".format(ref, got[:8], want[:8]),
    )
    if n <= 4:
        # the operator as a matrix says the same, first qubit least significant
        mat = np.diag(np.asarray(op.to_matrix())) if op.num_qubits else np.zeros(1)
        mon.check(
            np.allclose(mat + offset, want, rtol=1e-9, atol=1e-9), "to-matrix", lambda: repr(ref)
        )
    # and back
    if rng.random() < 0.5:
        mon.event("roundtrip")
        back = QuadraticProgram()
        back.from_ising(op, offset, linear=rng.random() < 0.5)
        b = read(back)
        mon.check(
            b.sense == 1 and b.n == n and all(v.type == B for v in b.vars), "back-shape", repr(ref)
        )
        mon.check(
            np.allclose(b.values(pts), want, rtol=1e-9, atol=1e-9),
            "back-value",
            lambda: "{} -> {}".format(ref, b),
        )
    if ref.quad:
        mon.seen(ref.key())
    return ref


def check_from(rng, mon):
    n = rng.choice([1, 2, 2, 3, 4, 5, 6, rng.choice([8, 11, 14])])
    if n > 10:
        mon.event("from:large")
    style = rng.choice(["small", "dyadic", "sparse", "big"])
    tlist = []
    for _ in range(rng.randint(1, 2 * n + 2)):
        kind = rng.choice([0, 1, 1, 2, 2, 2])
        qubits = rng.sample(range(n), min(kind, n))
        c = gen.coef(rng, style)
        if c == 0:
            c = F(1)
        tlist.append((c, sorted(qubits)))
    if rng.random() < 0.7:
        # one term per set of qubits
        tlist = list({tuple(q): (c, q) for c, q in tlist}.values())
    rep = rng.choice(["sum", "paulisum", "single", "nested", "scaled"])
    if any(not q for _, q in tlist):
        mon.event("from:identity")
    labels = []
    for c, qubits in tlist:
        lab = ["I"] * n
        for q in qubits:
            lab[n - 1 - q] = "Z"
        labels.append((c, "".join(lab)))
    if rep == "single":
        labels, tlist = labels[:1], tlist[:1]
        op = PauliOp(Pauli(labels[0][1]), float(labels[0][0]))
        if rng.random() < 0.5:
            mon.event("from:phase")
            sign, back = rng.choice([("-", -1), ("i", -1j), ("-i", 1j)])
            op = PauliOp(Pauli(sign + labels[0][1]), back * float(labels[0][0]))
    elif rep == "paulisum":
        op = PauliSumOp(SparsePauliOp.from_list([(lab, float(c)) for c, lab in labels]))
    elif rep == "sum":
        op = SummedOp([PauliOp(Pauli(lab), float(c)) for c, lab in labels])
    elif rep == "scaled":
        op = SummedOp([PauliOp(Pauli(lab), float(c) / 2) for c, lab in labels], coeff=2.0)
    else:
        half = len(labels) // 2
        parts = [labels[:half], labels[half:]]
        op = SummedOp(
            [
                SummedOp([PauliOp(Pauli(lab), float(c) / 2) for c, lab in part], coeff=2.0)
                for part in parts
                if part
            ]
        )
    offset = float(gen.coef(rng, style)) if rng.random() < 0.7 else 0.0
    linear = rng.random() < 0.5
    if linear:
        mon.event("from:linear")
    qp = QuadraticProgram("old")
    if rng.random() < 0.5:
        old = gen.qp(rng, types=(B, I, C))
        qp = build(old, rng)
    if offset == 0.0 and rng.random() < 0.5:
        qp.from_ising(op, linear=linear)
    else:
        qp.from_ising(op, offset, linear=linear)
    got = read(qp)
    where = "{} {} offset {} linear {}".format(rep, [(float(c), q) for c, q in tlist], offset, linear)
    mon.check(
        got.n == n and all(v.type == B and v.lb == 0 and v.ub == 1 for v in got.vars),
        "from-variables",
        where,
    )
    mon.check(not got.lcons and not got.qcons and got.sense == 1, "from-constraints", where)
    pts = bits(n)
    want = np.full(len(pts), offset)
    for c, qubits in tlist:
        sign = np.ones(len(pts))
        for q in qubits:
            sign = sign * (1 - 2 * pts[:, q])
        want = want + float(c) * sign
    mon.event("from:assignments", len(pts))
    vals = got.values(pts)
    mon.check(
        np.allclose(vals, want, rtol=1e-9, atol=1e-9),
        "from-value",
        lambda: "{} got {} want {} ({})".format(where, vals[:8], want[:8], got),
    )
    if linear:
        mon.check(all(i != j for i, j in got.quad), "from-linear-squares", where)
    mon.seen(("from", where))


def check_refused(rng, mon):
    ref = gen.qp(rng, n=rng.randint(1, 4), types=(B,), max_lin=2, max_quad=2)
    if not ref.lcons and not ref.qcons:
        i = rng.randrange(ref.n)
        v = ref.vars[i]
        ref.vars[i] = RefVar(v.name, rng.choice([I, C]), 0, rng.choice([1, 1, 3]))
    qp = build(ref, rng)
    mon.event("refused")
    mon.raises(QiskitOptimizationError, qp.to_ising, "to-not-refused", repr(ref))
    n = rng.randint(3, 5)
    bad = ["I"] * n
    if rng.random() < 0.5:
        bad[rng.randrange(n)] = rng.choice("XY")
        if rng.random() < 0.5:
            bad[rng.randrange(n)] = rng.choice("XYZ")
        if not set(bad) & {"X", "Y"}:
            bad[0] = "X"
    else:
        for i in rng.sample(range(n), rng.randint(3, n)):
            bad[i] = "Z"
    bad = "".join(bad)
    good = "Z" + "I" * (n - 1)
    lst = [(good, 1.0), (bad, 2.0)]
    rng.shuffle(lst)
    op = PauliSumOp.from_list(lst)
    if rng.random() < 0.3:
        op = PauliOp(Pauli(bad), 1.5)
    mon.raises(
        QiskitOptimizationError, lambda: QuadraticProgram().from_ising(op), "from-not-refused", lst
    )
    if rng.random() < 0.3:
        mon.raises(
            (NotImplementedError, QiskitOptimizationError),
            lambda: QuadraticProgram().from_ising(ListOp([Z ^ OpI, OpI ^ Z])),
            "list-not-refused",
        )


def run_case(rng, mon, k, tier):
    ref = check_to(rng, mon)
    check_from(rng, mon)
    if rng.random() < 0.5:
        check_refused(rng, mon)
    if k < 3:
        mon.sample({"program": repr(ref)[:300]})
