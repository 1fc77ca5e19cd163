"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTES = {}


def main():
    checks, missing = [], []
    with open(os.path.join(ROOT, "properties.jsonl"), encoding="utf8") as file:
        props = [json.loads(line) for line in file if line.strip()]
    for prop in props:
        pid = prop["id"]
        path = os.path.join(ROOT, "vp", "checks", pid.lower() + ".py")
        if not os.path.exists(path):
            missing.append({"property": pid, "reason": "check under construction"})
            continue
        text = open(path, encoding="utf8").read()
        tech = re.search(r'^TECHNIQUE = "(.*)"$', text, re.M)
        note = re.search(r'^NOTE = \((.*?)^\)', text, re.M | re.S)
        note = eval("(" + note.group(1) + ")") if note else ""  # pylint: disable=eval-used
        checks.append(
            {
                "property": pid,
                "quick_cmd": "./check.sh " + pid,
                "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + pid,
                "technique": tech.group(1)
                if tech
                else "runtime monitoring: online oracle over seeded hostile executions",
                "level": "exploration",
                "level_note": note
                or "The oracle watched every execution of a seeded, hostile workload (counts in "
                "the evidence); nothing is said about executions not run. Trusts the reference "
                "model in vp/ref.py.",
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": missing,
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf8") as file:
        json.dump(manifest, file, indent=1)
        file.write("\n")


if __name__ == "__main__":
    main()
