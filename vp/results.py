"""Oracle for optimization results: what every result has to say truthfully."""
import numpy as np
from qiskit_optimization.algorithms import OptimizationResultStatus as Status


def points_equal(a, b, tol=0.0):
    return len(a) == len(b) and all(abs(float(p) - float(q)) <= tol for p, q in zip(a, b))


def same(a, b, tol=1e-9):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)), abs(float(b)))


def is_feasible(ref, qp, x, discrete):
    """Exact feasibility for integral points, the (separately checked) report otherwise."""
    if discrete and all(float(v) == int(v) for v in x):
        return bool(ref.feasible_mask(np.array([[float(v) for v in x]]))[0])
    return bool(qp.is_feasible([float(v) for v in x]))


def check_result(mon, result, ref, qp, text, samples=True, tol=1e-9):
    """`result` is truthful about `ref`, the original problem stated by `qp`."""
    discrete = all(v.type != "C" for v in ref.vars)
    names = [v.name for v in ref.vars]
    mon.event("result")
    mon.equal([v.name for v in result.variables], names, "result-variables", text)
    mon.equal(list(result.variable_names), names, "result-variable-names", text)
    if result.x is None:
        mon.event("result:failure")
        mon.check(result.status == Status.FAILURE, "no-point-without-failure", text)
        mon.check(result.fval is None, "value-without-point", text)
        return
    x = [float(v) for v in result.x]
    mon.equal(len(x), ref.n, "result-length", text)
    mon.check(result.status != Status.FAILURE, "failure-with-point", text)
    want = float(ref.values(np.array([x]))[0])
    mon.check(
        same(result.fval, want, tol),
        "result-value",
        lambda: "{} x={} fval={} true={}".format(text, x, result.fval, want),
    )
    feas = is_feasible(ref, qp, x, discrete)
    mon.event("result:feasible" if feas else "result:infeasible")
    mon.equal(
        result.status,
        Status.SUCCESS if feas else Status.INFEASIBLE,
        "result-status",
        "{} x={}".format(text, x),
    )
    shown = str(result)
    mon.check(
        str(result.fval) in shown and result.status.name in shown,
        "printed-result",
        lambda: "{} {}".format(shown, text),
    )
    mon.check(
        points_equal([result[i] for i in range(ref.n)], x), "access-by-position", text
    )
    mon.check(points_equal([result[nm] for nm in names], x), "access-by-name", text)
    dic = result.variables_dict
    mon.check(set(dic) == set(names), "access-dict-names", text)
    mon.check(points_equal([dic[nm] for nm in names], x), "access-dict", text)
    if samples:
        mon.check(len(result.samples) > 0, "no-samples", text)
        total = 0.0
        for s in result.samples:
            check_sample(mon, s, ref, qp, text, discrete, tol)
            total += s.probability
        mon.check(abs(total - 1) <= 1e-4, "probabilities", lambda: "{} sum {}".format(text, total))


def check_sample(mon, s, ref, qp, text, discrete, tol=1e-9):
    y = [float(v) for v in s.x]
    mon.event("sample")
    mon.equal(len(y), ref.n, "sample-length", text)
    val = float(ref.values(np.array([y]))[0])
    mon.check(
        same(s.fval, val, tol),
        "sample-value",
        lambda: "{} sample {} fval {} true {}".format(text, y, s.fval, val),
    )
    feas = is_feasible(ref, qp, y, discrete)
    mon.equal(
        s.status,
        Status.SUCCESS if feas else Status.INFEASIBLE,
        "sample-status",
        "{} sample {}".format(text, y),
    )
    mon.check(
        -1e-12 <= s.probability <= 1 + 1e-9, "sample-probability", lambda: repr(s.probability)
    )
