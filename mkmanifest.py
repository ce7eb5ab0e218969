#!/opt/venv/bin/python
"""Rewrites MANIFEST.json from properties.jsonl and harness/checks/*.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, "/repo/src"]
from harness import core  # noqa: E402

TECH = {
    "model": "runtime monitoring: lock-step executable model over random and exhaustive operation histories",
    "trace": "runtime monitoring: online trace-specification checker over recorded visitor events",
    "ref": "runtime monitoring: every real execution judged by an independent reference oracle",
}
KIND = {**{k: "model" for k in "C01 C02 C03 C05 C13 C25 C27 C29 C33".split()},
        **{k: "trace" for k in "C16 C17 C18 C19 C20 C35".split()}}
PY = "/opt/venv/bin/python"

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(HERE, "harness/checks", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "no check yet"})
        continue
    mod = core.load(pid)
    checks.append({
        "property": pid,
        "quick_cmd": f"{PY} check.py {pid} --tier quick",
        "thorough_cmd": f"{PY} check.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": TECH[KIND.get(pid, "ref")],
        "level": "exploration",
        "level_note": "Held on the executions observed (counts, distinct non-trivial cases and executed lines are in the "
                      "evidence file); nothing is claimed for inputs not driven. "
                      + ("Assumes: " + "; ".join(getattr(mod, "ASSUMPTIONS", [])) + "." if getattr(mod, "ASSUMPTIONS", []) else "")
                      + " Trusts CPython and the reference model of the harness.",
    })
json.dump({"version": 1, "setup_cmd": f"{PY} -c 'import sys; sys.exit(sys.version_info < (3, 12))'",
           "checks": checks, "not_applicable": na,
           "notes": "Pure-Python library: checks import pybgl from /repo/src directly, with byte-code caches kept in a "
                    "scratch directory, so there is nothing to build and no hook in /repo is needed."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
