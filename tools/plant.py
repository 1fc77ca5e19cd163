"""Plant a bug from a spec file, confirm it and see whether its check catches it.

python tools/plant.py SPEC.py [--nocheck]

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (source of demo.py).
Works in a scratch copy of /repo under /tmp which is removed again.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# run with cwd = the repository
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def run(cmd, cwd, env=None, timeout=900):
    full = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
                OPENBLAS_NUM_THREADS="1", QISKIT_PARALLEL="FALSE", PYTHONHASHSEED="0")
    full.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, check=False)
    return p.returncode, p.stdout.decode("utf8", "replace")


def not_original(tree, base, diff):
    """Removed lines (not blank) that are not of the original commit; a list."""
    res, name, at, removed = [], None, 0, 0
    for line in diff.splitlines():
        if line.startswith("--- "):
            name = line[6:]
        elif line.startswith("@@"):
            at = int(line.split()[1].split(",")[0][1:])
        elif line.startswith("+++") or line.startswith("diff") or line.startswith("index"):
            continue
        elif line.startswith("-"):
            removed += 1
            blame = subprocess.check_output(
                ["git", "-C", tree, "blame", "-s", "-l", "-L", "{0},{0}".format(at), "HEAD", "--",
                 name]).decode()
            if line[1:].strip() and base[:12] not in blame:
                res.append(line)
            at += 1
        elif line.startswith(" "):
            at += 1
    return res if removed and len(res) == removed else []


def main():
    spec = runpy.run_path(sys.argv[1])
    bid = spec["ID"]
    base = subprocess.check_output(
        ["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).decode().strip()
    work = tempfile.mkdtemp(prefix="plant_" + bid + "_", dir="/tmp")
    tree = os.path.join(work, "repo")
    try:
        shutil.copytree("/repo", tree, symlinks=True)
        for name, old, new in spec["EDITS"]:
            path = os.path.join(tree, "qiskit_optimization", name)
            text = open(path).read()
            if text.count(old) != 1:
                print(bid, "BAD: edit matches", text.count(old), "times in", name)
                return 2
            open(path, "w").write(text.replace(old, new))
        diff = subprocess.check_output(["git", "-C", tree, "diff"])
        foreign = not_original(tree, base, diff.decode())
        if foreign:
            print(bid, "BAD: lines of own commits removed:", foreign[:3])
            return 2
        out = os.path.join(ROOT, "seeded", bid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(spec["DEMO"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"],
                   "what_it_breaks": spec["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        demo = os.path.join(out, "demo.sh")
        good, gout = run(["bash", demo], "/repo", timeout=300)
        bad, bout = run(["bash", demo], tree, timeout=300)
        status = "ok"
        if good != 0:
            status = "BAD demo fails on clean tree: " + gout[-600:]
        elif bad == 0:
            status = "BAD demo passes with the patch"
        else:
            rc, tout = run([PY, "-m", "pytest", "test", "-q", "-p", "no:cacheprovider",
                            "--timeout=300", "--disable-warnings", "-x"], tree)
            if rc != 0:
                status = "BAD tests fail: " + "\n".join(tout.splitlines()[-6:])
        print(bid, spec["PROPERTY"], status)
        print("   demo says:", bout.strip().splitlines()[-1][:200] if bout.strip() else "")
        if status != "ok":
            shutil.rmtree(out)
            return 2
        if "--nocheck" not in sys.argv:
            rc, cout = run(["bash", "check.sh", spec["PROPERTY"]], ROOT, {"VERIF_REPO": tree,
                           "VERIF_SEED": "1", "VERIF_TIER": "quick"}, timeout=1000)
            vio = [l for l in cout.splitlines() if l.startswith("VIOLATION")]
            print("   CHECK", "caught" if rc == 1 and vio else "MISSED rc=%d" % rc,
                  " | ".join(v[:250] for v in cout.splitlines() if "VIOLATION" in v or "kind" in v)[:700])
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
