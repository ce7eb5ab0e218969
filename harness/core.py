"""Core of the monitoring harness: cases, contexts, verdicts, watchdogs, workers.

A check module (harness/checks/<id>.py) defines

    RULE      how cases are made and what makes one non-trivial
    ANCHORS   the modules of pybgl whose executed lines are recorded
    REQUIRED  names of events that must have been observed at least once
    FAMILIES  list of Fam(name, fn, quick, thorough)

Each case is `fn(ctx)`; it drives the real code, records events with `ctx.ev` and judges
them with `ctx.expect`/`ctx.eq`.  A case is a pure function of (seed, family, index), so
the replay file only holds those, together with the witness.
"""
import hashlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NSHARDS = 8
CASE_CPU_S = 20.0  # processor seconds; a normal case takes milliseconds
MEM_LIMIT = 3 << 30


class Violation(Exception):
    pass


class KnownFinding(Exception):
    """Raised by a case which met (and classified) a listed finding."""

    def __init__(self, fid, detail=""):
        super().__init__(fid)
        self.fid = fid
        self.detail = detail


class CaseTimeout(BaseException):
    """The case used far more processor time than any terminating case does."""


class Fam:
    def __init__(self, name, fn, quick, thorough, cpu_s=CASE_CPU_S):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.cpu_s = cpu_s

    def count(self, tier):
        n = self.quick if tier == "quick" else self.thorough
        return n() if callable(n) else n


def short(x, n=1500):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:  # a broken __repr__ must not hide the witness
        s = f"<unprintable {type(x).__name__}: {e!r}>"
    return s if len(s) <= n else s[:n] + f"...[{len(s)} chars]"


class Ctx:
    def __init__(self, seed, tier):
        self.seed = seed
        self.tier = tier
        self.events = {}
        self.distinct = set()
        self.samples = {}
        self.knowns = {}
        self.fam = None
        self.i = None
        self.rng = None
        self.witness = {}

    # -- case life cycle
    def begin(self, fam, i):
        self.fam = fam
        self.i = i
        self.rng = random.Random(f"{self.seed}/{fam.name}/{i}")
        self.witness = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- observation
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def note(self, **kv):
        self.witness.update(kv)

    def nontrivial(self, *key):
        h = hashlib.blake2b(repr((self.fam.name,) + key).encode("utf8", "backslashreplace"), digest_size=8)
        self.distinct.add(h.hexdigest())

    def sample(self, **kv):
        l = self.samples.setdefault(self.fam.name, [])
        if len(l) < 2:
            l.append({"family": self.fam.name, "index": self.i, **{k: short(v, 300) for k, v in kv.items()}})

    # -- verdicts
    def fail(self, msg, **kv):
        self.witness.update(kv)
        raise Violation(msg)

    def expect(self, cond, msg, **kv):
        self.ev("judgements")
        if not cond:
            self.fail(msg, **kv)

    def eq(self, actual, expected, msg, **kv):
        self.ev("judgements")
        if actual != expected:
            self.fail(msg, actual=actual, expected=expected, **kv)

    def raises(self, exc, fn, msg, **kv):
        """fn() must raise one of exc (a tuple or class)."""
        self.ev("judgements")
        try:
            r = fn()
        except exc:
            return
        self.fail(msg, returned=r, **kv)

    def known(self, fid, detail=""):
        raise KnownFinding(fid, detail)


def _on_alarm(signum, frame):
    raise CaseTimeout()


def run_case(ctx, fam, i):
    """Runs one case; returns None or a violation record."""
    ctx.begin(fam, i)
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, fam.cpu_s)
    kind = msg = tb = None
    try:
        fam.fn(ctx)
        ctx.ev("cases")
        return None
    except KnownFinding as k:
        ctx.ev("cases")
        d = ctx.knowns.setdefault(k.fid, {"count": 0, "detail": short(k.detail, 300)})
        d["count"] += 1
        return None
    except Violation as v:
        kind, msg = "violated", str(v)
    except CaseTimeout:
        kind, msg = "hang", f"no answer after {fam.cpu_s:g} s of processor time"
        tb = traceback.format_exc(limit=-6)
    except RecursionError as e:
        kind, msg = "exception", f"RecursionError: {e}"
        tb = traceback.format_exc(limit=-6)
    except MemoryError:
        kind, msg = "exception", "MemoryError"
    except Exception as e:
        kind, msg = "exception", f"unexpected {type(e).__name__}: {short(str(e), 300)}"
        tb = traceback.format_exc(limit=-8)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return {
        "family": fam.name,
        "index": i,
        "kind": kind,
        "message": msg,
        "witness": {k: short(v) for k, v in ctx.witness.items()},
        "traceback": tb,
    }


# ---------------------------------------------------------------- line coverage
class Lines:
    """Lines of pybgl executed, by sys.monitoring (each location reported once)."""

    TOOL = 4

    def __init__(self):
        self.hit = {}
        self.prefix = os.path.join(SRC, "pybgl") + os.sep

    def start(self):
        m = getattr(sys, "monitoring", None)
        if m is None:
            return
        try:
            m.use_tool_id(self.TOOL, "verif-lines")
        except ValueError:
            return
        prefix, hit, DISABLE = self.prefix, self.hit, m.DISABLE

        def on_line(code, line):
            f = code.co_filename
            if f.startswith(prefix):
                hit.setdefault(f[len(prefix):], set()).add(line)
            return DISABLE

        m.register_callback(self.TOOL, m.events.LINE, on_line)
        m.set_events(self.TOOL, m.events.LINE)


def executable_lines(path):
    """Lines inside functions of the file (module-level ones run at import)."""
    src = open(path).read()
    out = set()

    def walk(code, inside):
        if inside:
            out.update(l for _, _, l in code.co_lines() if l and l != code.co_firstlineno)
        for c in code.co_consts:
            if hasattr(c, "co_code"):
                walk(c, not c.co_name[:1].isupper())

    walk(compile(src, path, "exec"), False)
    return out


# ---------------------------------------------------------------- worker
def load(pid):
    import importlib

    return importlib.import_module(f"harness.checks.{pid.lower()}")


def import_repo():
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import pybgl

    if not os.path.abspath(pybgl.__file__).startswith(SRC + os.sep):
        raise SystemExit(f"pybgl imported from {pybgl.__file__}, not from {SRC}")


def worker(pid, shard, seed, tier, out, wall_s):
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t0 = time.monotonic()
    import_repo()
    mod = load(pid)
    lines = Lines()
    lines.start()
    ctx = Ctx(seed, tier)
    violations, fams, truncated = [], {}, []
    todo = [(f, f.count(tier)) for f in mod.FAMILIES]
    for fam, n in todo:
        ran = 0
        bad = 0
        for i in range(shard, n, NSHARDS):
            if time.monotonic() - t0 > wall_s:
                truncated.append(fam.name)
                break
            ran += 1
            v = run_case(ctx, fam, i)
            if v:
                v["hashseed"] = os.environ.get("PYTHONHASHSEED")
                violations.append(v)
                bad += 1
                if bad >= 2 or v["kind"] == "hang":
                    break
        fams[fam.name] = ran
        if len(violations) >= 6:
            break
    with open(out, "w") as f:
        json.dump(
            {
                "events": ctx.events,
                "distinct": sorted(ctx.distinct),
                "samples": ctx.samples,
                "knowns": ctx.knowns,
                "violations": violations,
                "families": fams,
                "truncated": truncated,
                "lines": {k: sorted(v) for k, v in lines.hit.items()},
            },
            f,
        )
