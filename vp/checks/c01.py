"""C01: a program's bookkeeping agrees with its edit history.

Random histories of public edits (accepted and rejected) run against a shadow model; after every
step the whole public view of the program is compared with the shadow.
"""
import copy
from fractions import Fraction as F

from qiskit_optimization import QiskitOptimizationError, QuadraticProgram
from qiskit_optimization.problems.constraint import ConstraintSense
from qiskit_optimization.problems.variable import VarType

from vp import gen
from vp.ref import B, C, I, RefCon, RefQP, RefVar, clean, lin_arg, num, quad_arg, read, sense_arg
from vp.ref import tri

PROPERTY = "C01"
LEVEL = "exploration"
RULE = (
    "random histories of 10-60 public edits of a quadratic program (variables one by one, as lists "
    "and dicts, constraints, removals, objective, bound and coefficient changes, clear, deepcopy, "
    "invalid edits); non-trivial: the history holds a removal or rejected edit followed by a "
    "further edit; distinct by sequence of operations and outcomes"
)
CASES = {"quick": 9600, "thorough": 115200}
REQUIRED = {
    "edit:accepted": 5000,
    "edit:rejected": 500,
    "op:remove": 300,
    "op:remove_from_end": 60,
    "op:clear": 50,
    "op:var_list": 200,
    "op:auto_name": 200,
    "op:from_copy": 50,
    "state:compared": 5000,
}
ASSUMPTIONS = [
    "edits made through the public methods only; the lists and dicts that the program hands out "
    "are read, not written"
]
BAD = (QiskitOptimizationError, KeyError, IndexError, ValueError, TypeError)
VT = {B: VarType.BINARY, I: VarType.INTEGER, C: VarType.CONTINUOUS}


def compare(mon, qp, shadow, objs, where):
    mon.event("state:compared")
    got = read(qp)
    mon.check(
        got.key() == shadow.key(),
        "state-differs",
        lambda: "{}\n got: {} {}\nwant: {} {}".format(where, got.name, got, shadow.name, shadow),
    )
    n = shadow.n
    mon.equal(qp.get_num_vars(), n, "var-count", where)
    for typ, vt, fn in (
        (B, VarType.BINARY, qp.get_num_binary_vars),
        (I, VarType.INTEGER, qp.get_num_integer_vars),
        (C, VarType.CONTINUOUS, qp.get_num_continuous_vars),
    ):
        want = sum(v.type == typ for v in shadow.vars)
        mon.equal(fn(), want, "type-count", where)
        mon.equal(qp.get_num_vars(vt), want, "type-count", where)
    mon.equal(len(qp.variables), n, "var-list", where)
    mon.equal(
        dict(qp.variables_index), {v.name: i for i, v in enumerate(shadow.vars)}, "var-index", where
    )
    for i, v in enumerate(shadow.vars):
        by_index, by_name = qp.get_variable(i), qp.get_variable(v.name)
        mon.check(by_index is by_name and by_index is qp.variables[i], "var-lookup", where)
        mon.check(by_index is objs["v"][i], "var-identity", where)
        mon.check(by_index.quadratic_program is qp, "var-parent", where)
        mon.equal(tuple(by_index.as_tuple()), (v.name, v.lb, v.ub, VT[v.type]), "var-tuple", where)
    for cons, kind, index, getter, count, lst in (
        (
            shadow.lcons,
            "l",
            qp.linear_constraints_index,
            qp.get_linear_constraint,
            qp.get_num_linear_constraints,
            qp.linear_constraints,
        ),
        (
            shadow.qcons,
            "q",
            qp.quadratic_constraints_index,
            qp.get_quadratic_constraint,
            qp.get_num_quadratic_constraints,
            qp.quadratic_constraints,
        ),
    ):
        mon.equal(count(), len(cons), "con-count", where)
        mon.equal(len(lst), len(cons), "con-list", where)
        mon.equal(dict(index), {c.name: i for i, c in enumerate(cons)}, "con-index", where)
        for i, c in enumerate(cons):
            mon.check(getter(i) is getter(c.name) and getter(i) is lst[i], "con-lookup", where)
            mon.check(getter(i) is objs[kind][i], "con-identity", where)
            mon.check(getter(i).quadratic_program is qp, "con-parent", where)
    for name in ("no such name", "q 999"):
        mon.raises(KeyError, lambda n=name: qp.get_variable(n), "lookup-unknown", where)
        mon.raises(KeyError, lambda n=name: qp.get_linear_constraint(n), "lookup-unknown", where)
        mon.raises(KeyError, lambda n=name: qp.get_quadratic_constraint(n), "lookup-unknown", where)


def fresh(mon, qp_names, name, where):
    mon.check(isinstance(name, str) and name not in qp_names, "auto-name-not-fresh", where)


def pick_name(rng, used, prefix):
    """An explicit name; often one that automatic naming would take next, or one in use."""
    roll = rng.random()
    if used and roll < 0.1:
        return rng.choice(used)  # duplicate
    if roll < 0.7:
        return "{}{}".format(prefix, rng.randint(0, len(used) + 4))
    return rng.choice(gen.WORDS) + str(rng.randint(0, 40))


def run_case(rng, mon, k, tier):
    qp = QuadraticProgram("p{}".format(k))
    shadow = RefQP("p{}".format(k))
    objs = {"v": [], "l": [], "q": []}
    log = []
    rejected_or_removed = False
    nontrivial = False
    steps = rng.randint(10, 40 if tier == "quick" else 60)
    compare(mon, qp, shadow, objs, "start")
    for step in range(steps):
        op = rng.choice(
            ["var"] * 5
            + ["varlist"] * 3
            + ["lin"] * 5
            + ["quad"] * 4
            + ["remove"] * 4
            + ["objective"] * 3
            + ["bound"] * 2
            + ["coef", "attr", "copy"]
            + (["clear"] if rng.random() < 0.3 else [])
        )
        where = "step {} {} after {}".format(step, op, log[-6:])
        used = [v.name for v in shadow.vars]
        ok = True
        if op == "var":
            typ = rng.choice([B, I, C])
            name = None if rng.random() < 0.35 else pick_name(rng, used, "x")
            lo, up = gen.bounds(rng, typ)
            if rng.random() < 0.1 and typ != B:
                lo, up = up + 1, lo
            bad = (name in used) or lo > up
            before = len(qp.variables)
            call = {
                B: lambda: qp.binary_var(name),
                I: lambda: qp.integer_var(lo, up, name),
                C: lambda: qp.continuous_var(lo, up, name),
            }[typ]
            if bad:
                mon.raises(BAD, call, "bad-variable-accepted", where)
                ok = False
            else:
                v = call()
                if name is None:
                    mon.event("op:auto_name")
                    fresh(mon, used, v.name, where)
                else:
                    mon.equal(v.name, name, "var-name", where)
                mon.equal(len(qp.variables), before + 1, "var-added", where)
                shadow.vars.append(RefVar(v.name, typ, lo, up))
                objs["v"].append(v)
        elif op == "varlist":
            mon.event("op:var_list")
            typ = rng.choice([B, I, C])
            lo, up = gen.bounds(rng, typ)
            as_dict = rng.random() < 0.5
            name = rng.choice([None, "x", "y", "x1"])
            count = rng.choice([1, 2, 3, 5])
            fmt = rng.choice(["{}", "_{}", "{}_a", "{:02d}"])
            if rng.random() < 0.5:
                keys = count
                want = None
            else:
                keys = rng.sample(range(30), count)
                if fmt != "{:02d}" and rng.random() < 0.5:
                    keys = [str(key) for key in keys]
                if rng.random() < 0.3:
                    keys = tuple(keys)
                want = [(name or "x") + fmt.format(key) for key in keys]
            bad = False
            if rng.random() < 0.12:
                fmt, keys = rng.choice(
                    [("{}{}", count), ("{{}}", count), ("{}", 0), ("{}", -2), ("", 2)]
                )
                want, bad = None, True
            collide = want is not None and any(w in used for w in want)
            kwargs = {"name": name, "key_format": fmt}
            base = {B: "binary", I: "integer", C: "continuous"}[typ]
            if name is None and fmt == "{}" and rng.random() < 0.5:
                kwargs = {}
            if typ != B:
                kwargs.update(lowerbound=lo, upperbound=up)
            method = getattr(qp, base + ("_var_dict" if as_dict else "_var_list"))
            if bad:
                if rng.random() < 0.3:
                    # a wrong order of the bounds instead of a wrong format
                    pass
                if fmt == "" and (name or "x") not in used:
                    # the first of the two may be added before the clash is noticed
                    try:
                        method(keys=keys, **kwargs)
                        mon.check(False, "bad-list-accepted", where)
                    except BAD:
                        pass
                    if len(qp.variables) == shadow.n + 1:
                        v = qp.variables[-1]
                        shadow.vars.append(RefVar(v.name, typ, lo, up))
                        objs["v"].append(v)
                else:
                    mon.raises(
                        BAD, lambda: method(keys=keys, **kwargs), "bad-list-accepted", where
                    )
                ok = False
            elif collide:
                try:
                    method(keys=keys, **kwargs)
                    mon.check(False, "duplicate-accepted", where)
                except BAD:
                    pass
                # whatever was added before the clash must be a prefix of what was asked for
                added = qp.variables[shadow.n :]
                mon.check(
                    [v.name for v in added] == want[: len(added)]
                    and not any(v.name in used for v in added),
                    "partial-list",
                    where,
                )
                for v in added:
                    shadow.vars.append(RefVar(v.name, typ, lo, up))
                    objs["v"].append(v)
                ok = False
            else:
                res = method(keys=keys, **kwargs)
                if as_dict:
                    mon.check(all(key == v.name for key, v in res.items()), "dict-keys", where)
                    res = list(res.values())
                mon.equal(len(res), count, "list-length", where)
                if want is not None:
                    mon.equal([v.name for v in res], want, "list-names", where)
                else:
                    mon.event("op:auto_name")
                for v in res:
                    fresh(mon, used, v.name, where)
                    used.append(v.name)
                    shadow.vars.append(RefVar(v.name, typ, lo, up))
                    objs["v"].append(v)
        elif op in ("lin", "quad"):
            n = shadow.n
            cons = shadow.lcons if op == "lin" else shadow.qcons
            cnames = [c.name for c in cons]
            style = rng.choice(gen.COEF_STYLES)
            lin = gen.lin(rng, n, style) if n else {}
            quad = gen.quad(rng, n, style) if n and op == "quad" else None
            if op == "quad" and quad is None:
                quad = {}
            name = None if rng.random() < 0.35 else pick_name(rng, cnames, "c" if op == "lin" else "q")
            sense = rng.choice(["<=", ">=", "=="])
            rhs = gen.coef(rng, style)
            names = used
            la = lin_arg(rng, lin, names) if n else {}
            qa = quad_arg(rng, quad, names) if op == "quad" else None
            if not lin and rng.random() < 0.3:
                la = None
            sa = sense_arg(rng, sense)
            bad = name in cnames
            if rng.random() < 0.2 and not bad:
                bad = True
                fault = rng.choice(["sense", "var", "format", "index", "quad"])
                if fault == "sense":
                    sa = rng.choice(["=<", "!=", "", "x", "=>"])
                elif fault == "var" or (fault == "quad" and op == "lin"):
                    la = {"no such": 1}
                elif fault == "format":
                    la = "abc"
                elif fault == "index":
                    la = {n + 3: 1}
                else:
                    qa = rng.choice([{("no such", "either"): 1}, "abc"])
            if op == "lin":
                call = lambda: qp.linear_constraint(la, sa, num(rhs), name)  # noqa
            else:
                call = lambda: qp.quadratic_constraint(la, qa, sa, num(rhs), name)  # noqa
            if bad:
                mon.raises(BAD, call, "bad-constraint-accepted", where)
                ok = False
            else:
                c = call()
                if name is None:
                    mon.event("op:auto_name")
                    fresh(mon, cnames, c.name, where)
                else:
                    mon.equal(c.name, name, "con-name", where)
                if op == "lin":
                    shadow.lcons.append(RefCon(c.name, lin, None, sense, rhs))
                    objs["l"].append(c)
                else:
                    shadow.qcons.append(RefCon(c.name, lin, quad, sense, rhs))
                    objs["q"].append(c)
        elif op == "remove":
            which = rng.choice("lq")
            cons = shadow.lcons if which == "l" else shadow.qcons
            method = qp.remove_linear_constraint if which == "l" else qp.remove_quadratic_constraint
            if not cons or rng.random() < 0.15:
                arg = rng.choice(["no such", len(cons) + 2])
                mon.raises((KeyError, IndexError), lambda: method(arg), "bad-removal", where)
                ok = False
            else:
                i = rng.randrange(len(cons))
                mon.event("op:remove")
                arg = rng.choice([cons[i].name, i, i - len(cons)])
                try:
                    method(arg)
                except IndexError:
                    # counting from the end may be refused, but then nothing may change
                    mon.check(isinstance(arg, int) and arg < 0, "removal-refused", where)
                    ok = False
                else:
                    del cons[i]
                    del objs[which][i]
                    rejected_or_removed = True
                if arg.__class__ is int and arg < 0:
                    mon.event("op:remove_from_end")
        elif op == "objective":
            n = shadow.n
            style = rng.choice(gen.COEF_STYLES)
            lin = gen.lin(rng, n, style) if n else {}
            quad = gen.quad(rng, n, style) if n else {}
            const = gen.coef(rng, style)
            sense = rng.choice([1, -1])
            method = qp.minimize if sense == 1 else qp.maximize
            if rng.random() < 0.15:
                arg = rng.choice([{"no such": 1}, {n + 2: 1.0}, "abc"])
                if rng.random() < 0.5:
                    call = lambda: method(1.0, arg, None)  # noqa
                else:
                    call = lambda: method(1.0, None, {("no", "such"): 2})  # noqa
                mon.raises(BAD, call, "bad-objective-accepted", where)
                ok = False
            else:
                how = rng.randrange(4)
                la = lin_arg(rng, lin, used) if n else None
                qa = quad_arg(rng, quad, used) if n else None
                if how == 0:
                    lin, quad = {}, {}
                    method(num(const, rng))
                elif how == 1:
                    quad, const = {}, F(0)
                    method(linear=la)
                elif how == 2:
                    lin, const = {}, F(0)
                    method(quadratic=qa)
                else:
                    method(num(const, rng), la, qa)
                shadow.sense, shadow.const = sense, const
                shadow.lin, shadow.quad = clean(lin), tri(quad)
        elif op == "bound":
            if shadow.n:
                i = rng.randrange(shadow.n)
                v, obj = shadow.vars[i], qp.get_variable(i)
                new = F(rng.randint(-12, 12), rng.choice([1, 1, 2]))
                new = num(new)
                if rng.random() < 0.5:
                    if new > v.ub:
                        mon.raises(
                            QiskitOptimizationError,
                            lambda: setattr(obj, "lowerbound", new),
                            "bad-bound-accepted",
                            where,
                        )
                        ok = False
                    else:
                        obj.lowerbound = new
                        v.lb = new
                else:
                    if new < v.lb:
                        mon.raises(
                            QiskitOptimizationError,
                            lambda: setattr(obj, "upperbound", new),
                            "bad-bound-accepted",
                            where,
                        )
                        ok = False
                    else:
                        obj.upperbound = new
                        v.ub = new
                if rng.random() < 0.2:
                    typ = rng.choice([B, I, C])
                    obj.vartype = VT[typ]
                    v.type = typ
        elif op == "coef":
            # change coefficients in place, by index or by name
            cand = [("o", None)] + [("l", i) for i in range(len(shadow.lcons))]
            cand += [("q", i) for i in range(len(shadow.qcons))]
            which, i = rng.choice(cand)
            obj = qp.objective if which == "o" else objs[which][i]
            ref = shadow if which == "o" else (shadow.lcons if which == "l" else shadow.qcons)[i]
            dim = obj.linear.coefficients.shape[1]
            if dim:
                val = gen.coef(rng, "dyadic")
                j = rng.randrange(dim)
                m = rng.randrange(dim)
                if which == "l" or rng.random() < 0.5:
                    obj.linear[j if rng.random() < 0.5 else used[j]] = num(val, rng)
                    ref.lin[j] = val
                    ref.lin = clean(ref.lin)
                elif obj.quadratic.coefficients.shape[0] > max(j, m):
                    key = [j if rng.random() < 0.5 else used[j], m if rng.random() < 0.5 else used[m]]
                    obj.quadratic[key[0], key[1]] = num(val, rng)
                    ref.quad[min(j, m), max(j, m)] = val
                    ref.quad = tri(ref.quad)
        elif op == "attr":
            cand = [("l", i) for i in range(len(shadow.lcons))]
            cand += [("q", i) for i in range(len(shadow.qcons))]
            if cand and rng.random() < 0.7:
                which, i = rng.choice(cand)
                ref = (shadow.lcons if which == "l" else shadow.qcons)[i]
                rhs = gen.coef(rng, "dyadic")
                objs[which][i].rhs = num(rhs)
                ref.rhs = rhs
                ref.sense = rng.choice(["<=", ">=", "=="])
                objs[which][i].sense = ConstraintSense.convert(ref.sense)
            else:
                shadow.name = rng.choice(["", "a", "renamed"])
                qp.name = shadow.name
                shadow.const = gen.coef(rng, "small")
                qp.objective.constant = num(shadow.const)
        elif op == "copy":
            mon.event("op:from_copy")
            old, old_shadow, old_objs = qp, shadow.copy(), objs
            qp = copy.deepcopy(old)
            objs = {
                "v": list(qp.variables),
                "l": list(qp.linear_constraints),
                "q": list(qp.quadratic_constraints),
            }
            # edits of the copy do not reach the original
            qp.binary_var("only in the copy")
            objs["v"].append(qp.variables[-1])
            shadow.vars.append(RefVar("only in the copy", B, 0, 1))
            compare(mon, old, old_shadow, old_objs, where + " (original of the copy)")
            if "only in the copy" in used:
                raise AssertionError("harness")
            qp.clear()
            qp = copy.deepcopy(old)
            objs = {
                "v": list(qp.variables),
                "l": list(qp.linear_constraints),
                "q": list(qp.quadratic_constraints),
            }
            shadow = old_shadow
            compare(mon, old, old_shadow, old_objs, where + " (original of the cleared copy)")
        elif op == "clear":
            mon.event("op:clear")
            qp.clear()
            shadow = RefQP("")
            objs = {"v": [], "l": [], "q": []}
            rejected_or_removed = True
        log.append((op, ok))
        mon.note(op, ok)
        if ok:
            mon.event("edit:accepted")
            nontrivial = nontrivial or rejected_or_removed
        else:
            mon.event("edit:rejected")
            rejected_or_removed = True
        compare(mon, qp, shadow, objs, where + (" accepted" if ok else " rejected"))
    if nontrivial:
        mon.seen((tuple(log), shadow.key()))
    if k < 3:
        mon.sample({"ops": log[:12], "final": repr(shadow)[:300]})
