#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--replay FILE]   (see DESIGN.md)

exit 0: held on everything explored; exit 1: violated (VIOLATION line);
exit 3: inconclusive (a monitor was never reached, a worker died); nothing else is an answer.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from harness import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    ap.add_argument("--wall", type=float, default=0)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    if a.worker is not None:
        core.worker(a.id, a.worker, seed, a.tier, a.out, a.wall)
        return 0
    if a.replay:
        return replay(a)
    return run(a, seed)


def child_env(tmp, hashseed, seed):
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED=str(hashseed),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"),
        VERIF_SEED=str(seed),
        HOME=tmp,
        PYTHONPATH=core.SRC,
        IPYTHONDIR=tmp,
        TMPDIR=tmp,
    )
    return env


def run(a, seed):
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix=f"verif-{a.id}-")
    wall = a.wall or (400 if a.tier == "quick" else 780)
    procs = []
    try:
        for k in range(core.NSHARDS):
            out = os.path.join(tmp, f"{k}.json")
            hs = (seed * 1009 + k * 7919) % 4294967295
            log = open(os.path.join(tmp, f"{k}.log"), "wb")
            p = subprocess.Popen(
                [sys.executable, os.path.join(HERE, "check.py"), a.id, "--tier", a.tier,
                 "--worker", str(k), "--out", out, "--wall", str(wall)],
                env=child_env(tmp, hs, seed), cwd=tmp, stdin=subprocess.DEVNULL, stdout=log, stderr=log)
            procs.append((k, p, out, log))
        results, dead = [], []
        for k, p, out, log in procs:
            left = max(5.0, wall + 60 - (time.monotonic() - t0))
            try:
                rc = p.wait(timeout=left)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "killed by the watchdog"
            log.close()
            if rc == 0 and os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                dead.append((k, rc, open(log.name, errors="replace").read()[-1500:]))
    finally:
        for _, p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return report(a, seed, results, dead, time.monotonic() - t0)


def report(a, seed, results, dead, wall_s):
    core.import_repo()
    mod = core.load(a.id)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    listed = {f["id"]: f for f in known["findings"] if f["property"] == a.id}
    ev, distinct, samples, viol, fams, lines, knowns = {}, set(), [], [], {}, {}, {}
    truncated = set()
    for r in results:
        for k, v in r["events"].items():
            ev[k] = ev.get(k, 0) + v
        distinct.update(r["distinct"])
        for k, v in r["families"].items():
            fams[k] = fams.get(k, 0) + v
        for k, v in r["lines"].items():
            lines.setdefault(k, set()).update(v)
        for k, v in r["knowns"].items():
            d = knowns.setdefault(k, {"count": 0, "detail": v["detail"]})
            d["count"] += v["count"]
        viol += r["violations"]
        truncated.update(r["truncated"])
    seen = set()
    for r in results:
        for f, l in r["samples"].items():
            if f not in seen and l:
                samples.append(l[0])
                seen.add(f)
    for fid in list(knowns):
        if fid not in listed:
            viol.append({"family": "?", "index": -1, "kind": "violated",
                         "message": f"finding {fid} is not listed for {a.id}: {knowns[fid]['detail']}",
                         "witness": {}, "traceback": None, "hashseed": None})
    viol.sort(key=lambda v: (v["index"], v["family"]))
    reach = {}
    for f in mod.ANCHORS:
        path = os.path.join(core.SRC, "pybgl", f)
        if os.path.exists(path):
            try:
                ex = core.executable_lines(path)
            except SyntaxError:
                continue
            reach[f] = {"function_lines": len(ex), "executed": len(ex & lines.get(f, set()))}
    evidence = {
        "property": a.id,
        "tier": a.tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev.get("cases", 0) + len(viol),
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples[:12] or ["none"],
            "events_observed": dict(sorted(ev.items())),
            "cases_per_family": fams,
            "families_truncated_by_wall_clock": sorted(truncated),
            "hash_seeds": len(results),
            "anchored_lines": reach,
            "known_findings_met": knowns,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall_s, 2),
        "violations": len(viol),
    }
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{a.id}.json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
    for fid in sorted(knowns):
        if fid in listed:
            print(f"KNOWN-FINDING: property={a.id} {fid} {listed[fid]['what']} (met {knowns[fid]['count']} times)")
    print(f"{a.id} {a.tier} seed={seed} cases={ev.get('cases', 0)} distinct={len(distinct)} "
          f"judgements={ev.get('judgements', 0)} wall={wall_s:.1f}s")
    if viol:
        path = os.path.join(evdir, f"replay-{a.id}.json")
        with open(path, "w") as f:
            json.dump({"property": a.id, "seed": seed, "tier": a.tier, "violations": viol}, f, indent=1)
        v = viol[0]
        print(f"  {v['family']}[{v['index']}]: {v['message']}")
        for k, w in v["witness"].items():
            print(f"    {k} = {w}")
        if v["traceback"]:
            print("    " + v["traceback"].replace("\n", "\n    "))
        print(f"VIOLATION property={a.id} replay={path}")
        return 1
    if dead:
        for k, rc, log in dead:
            print(f"INCONCLUSIVE: worker {k} ended with {rc}\n{log}")
        return 3
    missing = [n for n in mod.REQUIRED if not ev.get(n)]
    if missing or not ev.get("judgements"):
        print(f"INCONCLUSIVE: never observed: {missing}")
        return 3
    return 0


def replay(a):
    r = json.load(open(a.replay))
    core.import_repo()
    mod = core.load(r["property"])
    fams = {f.name: f for f in mod.FAMILIES}
    v = r["violations"][0]
    if os.environ.get("PYTHONHASHSEED") != str(v.get("hashseed")) and v.get("hashseed"):
        os.environ["PYTHONHASHSEED"] = str(v["hashseed"])
        os.execv(sys.executable, [sys.executable] + sys.argv)
    ctx = core.Ctx(r["seed"], r["tier"])
    got = core.run_case(ctx, fams[v["family"]], v["index"])
    print(json.dumps(got, indent=1))
    return 1 if got else 0


if __name__ == "__main__":
    sys.exit(main())
