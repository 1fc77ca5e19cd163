"""C29: outcomes depend on inputs, settings and seeds alone."""
import json
import os
import subprocess
import sys
import tempfile

PROPERTY = "C29"
TECHNIQUE = "runtime monitoring: differential replay across processes"
LEVEL = "exploration"
RULE = (
    "batches of seeded scripts (conversions, exchange, substitution, Ising, applications, random "
    "instances, every optimizer, simulators), each run twice in each of two processes with "
    "different hash seeds; complete outcomes (order of elements and samples included) compared; "
    "non-trivial: both processes had the same input; distinct by input"
)
COUNT = {"quick": 40, "thorough": 60}
CASES = {"quick": 32, "thorough": 480}
CHUNKS = 32
REQUIRED = {
    "scripts": 900,
    "script:convert": 150,
    "script:exchange": 80,
    "script:ising": 80,
    "script:application": 150,
    "script:solve": 200,
    "script:quantum": 80,
}
TIMEOUT = {"quick": 300, "thorough": 600}
ASSUMPTIONS = [
    "one machine; NumPy's, Python's and Qiskit's generators seeded; values compared to nine digits"
]
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def child(mon, seed, count, hash_seed):
    fd, path = tempfile.mkstemp(prefix="vp_c29_")
    os.close(fd)
    try:
        env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
        env.pop("VERIF_DEBUG", None)
        subprocess.run(
            [sys.executable, "-W", "ignore", "-m", "vp.twice", str(seed), "0", str(count), path],
            cwd=ROOT,
            env=env,
            check=True,
            stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL,
            timeout=280,
        )
        with open(path, encoding="utf8") as file:
            return [json.loads(line) for line in file]
    finally:
        os.unlink(path)


def difference(a, b):
    at = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
    return "...{} | ...{}".format(a[max(0, at - 60) : at + 60], b[max(0, at - 60) : at + 60])


def run_case(rng, mon, k, tier):
    seed = rng.randrange(10 ** 9)
    count = COUNT[tier]
    mon.note("scripts of seed {}".format(seed))
    one = child(mon, seed, count, rng.randrange(1, 2 ** 31))
    two = child(mon, seed, count, rng.randrange(1, 2 ** 31))
    mon.equal(len(one), len(two), "lost-scripts")
    for j, (p, q) in enumerate(zip(one, two)):
        name, mark, given, out, again = p
        if mark != q[1]:
            mon.event("input-differs")
            continue
        mon.event("scripts")
        mon.event("script:" + name)
        if out.startswith("error"):
            mon.event("error:" + name)
        mon.seen(mark)
        where = "script {} of seed {}: {} {}".format(j, seed, name, given)
        mon.check(
            out == again and q[3] == q[4],
            "differs-when-repeated",
            lambda: where + " " + difference(out + q[3], again + q[4]),
        )
        mon.check(
            out == q[3],
            "differs-between-processes",
            lambda: where + " " + difference(out, q[3]),
        )
    if k < 3:
        mon.sample({"seed": seed, "first": one[0][2][:200], "outcome": one[0][3][:200]})
