"""Harness core: seeded case execution, event recording, verdicts, evidence, replay.

A *check* is a module in vp.checks with

  PROPERTY   id of the property it decides
  LEVEL      level recorded in the evidence
  RULE       how cases are made and what makes one non-trivial
  CASES      {"quick": n, "thorough": n}
  REQUIRED   {event: minimum}: events the monitors must have observed for a verdict
  run_case(rng, mon, k, tier)   drives the real code once and lets the oracle look

All randomness of case k comes from ``random.Random(f"{property}/{seed}/{k}")``, so a case is
replayed from (property, seed, tier, k) alone. Verdicts:

  0  held on everything observed
  1  a violation (with a VIOLATION line and a replay file)
  3  inconclusive (a monitor was never reached, or the watchdog ended a worker)
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

from vp.watch import Watch

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
FINDINGS = os.path.join(ROOT, "known_findings.txt")
MAX_REPORT = 20


class Violated(Exception):
    """The oracle saw the property broken."""

    def __init__(self, kind, detail):
        super().__init__("{}: {}".format(kind, detail))
        self.kind = kind
        self.detail = detail


class CaseTimeout(BaseException):
    """The watchdog fired: no verdict for this case."""


def digest(obj):
    return hashlib.sha1(repr(obj).encode("utf8", "replace")).hexdigest()[:16]


class Monitor:
    """Records the events of one case."""

    def __init__(self):
        self.events = {}
        self.distinct = set()
        self.samples = []
        self.trace = []

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def seen(self, signature):
        """A distinct non-trivial case (or observation) identified by `signature`."""
        self.distinct.add(digest(signature))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def note(self, *parts):
        """Witness information that goes in the replay file if the case fails."""
        if len(self.trace) < 400:
            self.trace.append(" ".join(str(p) for p in parts)[:600])

    def check(self, cond, kind, detail=""):
        self.event("assertions")
        if not cond:
            if callable(detail):
                detail = detail()
            raise Violated(kind, str(detail)[:3000])

    def equal(self, got, want, kind, detail=""):
        self.check(got == want, kind, lambda: "{} got={!r} want={!r}".format(detail, got, want))

    def close(self, got, want, kind, detail="", tol=1e-7):
        try:
            g, w = float(got), float(want)
            ok = abs(g - w) <= tol * max(1.0, abs(w))
        except Exception:  # pylint: disable=broad-except
            ok = False
        self.check(ok, kind, lambda: "{} got={!r} want={!r}".format(detail, got, want))

    def raises(self, types, fn, kind, detail=""):
        """`fn` has to raise one of `types`."""
        self.event("assertions")
        try:
            res = fn()
        except types:
            return
        except Exception as ex:  # pylint: disable=broad-except
            raise Violated(
                kind, "{} raised {} instead of {}: {}".format(detail, type(ex), types, ex)
            ) from ex
        raise Violated(kind, "{} did not raise {} but returned {!r}".format(detail, types, res))


def case_rng(prop, seed, k):
    return random.Random("{}/{}/{}".format(prop, seed, k))


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(mod, seed, tier, k, timeout):
    """Run case k. Returns (events, distinct, samples, violation or None, inconclusive)."""
    import numpy as np

    mon = Monitor()
    rng = case_rng(mod.PROPERTY, seed, k)
    np.random.seed(rng.randrange(2 ** 31))
    random.seed(rng.randrange(2 ** 31))
    try:
        from qiskit.utils import algorithm_globals

        algorithm_globals.random_seed = rng.randrange(2 ** 31)
        algorithm_globals.massive = True
    except ImportError:
        pass
    violation = None
    late = False
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        mod.run_case(rng, mon, k, tier)
    except Violated as ex:
        violation = {"kind": ex.kind, "detail": ex.detail}
    except CaseTimeout:
        late = True
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as ex:  # pylint: disable=broad-except
        # An exception nobody expects on inputs for which the property promises an answer.
        violation = {
            "kind": "unexpected-exception:" + type(ex).__name__,
            "detail": traceback.format_exc()[-3000:],
        }
    finally:
        signal.alarm(0)
    if violation is not None:
        violation.update(
            {"property": mod.PROPERTY, "seed": seed, "tier": tier, "case": k, "trace": mon.trace}
        )
    mon.event("cases")
    return mon.events, mon.distinct, mon.samples, violation, late


_MOD = None
_ARGS = None


_WATCH = None


def _worker(ks):
    global _WATCH
    if _WATCH is None:
        _WATCH = Watch(os.path.join(REPO, "qiskit_optimization")).start()
    out = []
    for k in ks:
        if time.monotonic() > _ARGS[3]:
            break  # out of time: what was observed so far decides
        out.append(run_one(_MOD, _ARGS[0], _ARGS[1], k, _ARGS[2]))
        if sum(1 for o in out if o[3]) >= 5:
            break
    events, distinct, samples, violations, late = {}, set(), [], [], 0
    for ev, dist, sam, vio, was_late in out:
        for name, n in ev.items():
            events[name] = events.get(name, 0) + n
        distinct |= dist
        samples.extend(sam[:1])
        if vio:
            violations.append(vio)
        late += bool(was_late)
    return events, distinct, samples[:2], violations, late, _WATCH.take()


def known_findings(prop):
    """Kinds of violation of `prop` that are recorded as known: {kind: description}."""
    res = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS, encoding="utf8") as file:
            for line in file:
                parts = line.strip().split(None, 3)
                if len(parts) == 4 and parts[0] == "known:":
                    if parts[1] == "property=" + prop and parts[2].startswith("kind="):
                        res[parts[2][len("kind=") :]] = parts[3]
    return res


def use_repo():
    """Import the package from the current working tree of the repository, and from nowhere else."""
    sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import qiskit_optimization

    path = os.path.abspath(qiskit_optimization.__file__)
    if not path.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("qiskit_optimization imported from {}".format(path))


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--replay")
    parser.add_argument("--cases", type=int)
    parser.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    args = parser.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    start = time.monotonic()

    # keep what native libraries print away from the verdict lines
    stdout = os.fdopen(os.dup(1), "w")
    stderr = os.fdopen(os.dup(2), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(null, 1)
        os.dup2(null, 2)

    def say(*parts):
        print(*parts, file=stdout, flush=True)

    try:
        use_repo()
        mod = importlib.import_module("vp.checks." + args.property.lower())
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc(file=stderr)
        say("INCONCLUSIVE property={} the harness cannot be loaded".format(args.property))
        return 3
    prop = mod.PROPERTY

    if args.replay:
        with open(args.replay, encoding="utf8") as file:
            rec = json.load(file)
        _, _, _, vio, late = run_one(mod, rec["seed"], rec["tier"], rec["case"], 600)
        if vio:
            say(json.dumps(vio, indent=1))
            say("VIOLATION property={} replay={}".format(prop, args.replay))
            return 1
        say("replayed: {}".format("inconclusive" if late else "held"))
        return 3 if late else 0

    n_cases = args.cases or mod.CASES[tier]
    timeout = getattr(mod, "TIMEOUT", {"quick": 120, "thorough": 600})[tier]
    global _MOD, _ARGS
    soft = {"quick": 480, "thorough": 3 * 3600}[tier]
    _MOD, _ARGS = mod, (seed, tier, timeout, start + soft)
    if hasattr(mod, "prepare"):
        mod.prepare()
    jobs = max(1, min(args.jobs, n_cases))
    n_chunks = min(n_cases, jobs * getattr(mod, "CHUNKS", 8))
    chunks = [list(range(c, n_cases, n_chunks)) for c in range(n_chunks)]
    events, distinct, samples, violations, late = {}, set(), [], [], 0
    lines, branches = set(), set()
    broken = None
    limit = {"quick": 800, "thorough": 4 * 3600}[tier]
    with mp.get_context("fork").Pool(jobs) as pool:
        pending = [pool.apply_async(_worker, (chunk,)) for chunk in chunks]
        for res in pending:
            try:
                ev, dist, sam, vio, was_late, seen = res.get(max(1, limit - (time.monotonic() - start)))
            except mp.TimeoutError:
                broken = "the watchdog ended the run"
                break
            except Exception as ex:  # pylint: disable=broad-except
                broken = "a worker died: {!r}".format(ex)
                break
            for name, n in ev.items():
                events[name] = events.get(name, 0) + n
            distinct |= dist
            samples.extend(sam)
            violations.extend(vio)
            late += was_late
            lines |= seen[0]
            branches |= seen[1]
            if len(violations) >= MAX_REPORT:
                break
        pool.terminate()

    by_file = {}
    for path, _ in lines:
        by_file[path] = by_file.get(path, 0) + 1
    if os.environ.get("VERIF_LINES"):
        with open(os.environ["VERIF_LINES"], "w", encoding="utf8") as file:
            json.dump([sorted(lines), sorted(branches)], file)

    known = known_findings(prop)
    new = []
    hit = {}
    for vio in violations:
        if vio["kind"] in known:
            hit.setdefault(vio["kind"], vio)
        else:
            new.append(vio)
    for kind in sorted(hit):
        say("KNOWN-FINDING: property={} kind={} {}".format(prop, kind, known[kind]))

    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": events.get("cases", 0),
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples[:6],
            "events": {name: events[name] for name in sorted(events)},
            "watchdog": late,
            "lines_executed": {path: by_file[path] for path in sorted(by_file)},
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - start, 2),
        "violations": len(new),
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w", encoding="utf8") as file:
        json.dump(evidence, file, indent=1, default=str)

    say(
        "{} tier={} seed={} cases={} distinct={} wall={:.1f}s".format(
            prop, tier, seed, events.get("cases", 0), len(distinct), time.monotonic() - start
        )
    )
    say("  observed: " + ", ".join("{}={}".format(k, events[k]) for k in sorted(events)))

    if new:
        os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
        shown = set()
        for vio in new:
            if vio["kind"] in shown and len(shown) > 0:
                continue
            shown.add(vio["kind"])
            path = os.path.join(
                ROOT, "evidence", "replay", "{}-{}-{}-{}.json".format(prop, tier, seed, vio["case"])
            )
            with open(path, "w", encoding="utf8") as file:
                json.dump(vio, file, indent=1, default=str)
            say("  {}: {}".format(vio["kind"], vio["detail"][-700:]))
            say("VIOLATION property={} replay={}".format(prop, path))
        return 1
    if broken:
        say("INCONCLUSIVE property={} {}".format(prop, broken))
        return 3
    missing = {
        name: (events.get(name, 0), least)
        for name, least in mod.REQUIRED.items()
        if events.get(name, 0) < least
    }
    if missing and not args.cases:
        say("INCONCLUSIVE property={} too few events (seen, needed): {}".format(prop, missing))
        return 3
    if late > max(2, n_cases // 20):
        say("INCONCLUSIVE property={} the watchdog ended {} cases".format(prop, late))
        return 3
    return 0


