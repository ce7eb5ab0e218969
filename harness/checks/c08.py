"""C08: Hopcroft minimization against exact language comparison and Moore's partition refinement."""
import itertools

from pybgl.hopcroft_minimize import hopcroft_minimize
from pybgl.incidence_automaton import IncidenceAutomaton

from .. import gen
from ..core import Fam

ANCHORS = ["hopcroft_minimize.py", "incidence_automaton.py", "automaton.py"]
RULE = (
    "A case is a deterministic automaton with in-edges (random, or one of all complete 3-state automata over {a,b} up to initial state 0 in the thorough "
    "exhaustive family, or a blown-up copy of a smaller automaton) minimized and compared with its input by a search of all reachable pairs of states "
    "(exact). Non-trivial: minimization merged states and kept at least 2; distinct by automaton."
)
REQUIRED = ["complete and reachable", "partial", "unreachable states", "merged", "already minimal", "no final state", "all states final", "initial state not 0", "many states or symbols", "empty automaton"]
ASSUMPTIONS = ["the initial state is a state of the automaton", "minimality is judged for complete automata with all states reachable"]


def judge(ctx, d, g):
    snap = gen.snapshot(g)
    m = hopcroft_minimize(g)
    ctx.eq(gen.snapshot(g), snap, "minimizing altered its input")
    try:
        D = gen.read_dfa(m)
    except AssertionError as e:
        ctx.fail(f"the result is not deterministic: {e}")
    ctx.note(result=D)
    ctx.expect(D.init is not None, "the result has no initial state")
    w = gen.difference(d, D)
    ctx.expect(w is None, "the result does not accept the same words", word=w)
    for x in gen.words(ctx.rng, sorted(d.alphabet(), key=repr), 4, 6):
        ctx.eq(bool(m.accepts(x)), d.accepts(x), "accepts() of the result", word=x)
    # in-edges of the result
    want = sorted(((q, r, repr(a)) for q, r, a in D.edges()))
    got = sorted((m.source(e), m.target(e), repr(m.label(e))) for r in m.vertices() for e in m.in_edges(r))
    ctx.eq(got, want, "in-edges of the result")
    reach = d.reachable()
    al = d.alphabet()
    complete = all(d.delta(q, a) is not None for q in range(d.n) for a in al)
    ctx.expect(m.num_vertices() <= d.n, "the result has more states than the input")
    if complete and len(reach) == d.n:
        cls, _ = gen.minimal_classes(d)
        k = len({cls[q] for q in range(d.n)})
        ctx.eq(m.num_vertices(), k, "the result is not minimal")
        ctx.ev("complete and reachable")
        ctx.expect(all(D.delta(q, a) is not None for q in m.vertices() for a in al), "the result is not complete")
    elif not complete:
        ctx.ev("partial")
    if len(reach) < d.n:
        ctx.ev("unreachable states")
    if m.num_vertices() < d.n:
        ctx.ev("merged")
        if m.num_vertices() > 1:
            ctx.nontrivial(repr(d))
    else:
        ctx.ev("already minimal")
    if not d.finals:
        ctx.ev("no final state")
    if len(d.finals) == d.n:
        ctx.ev("all states final")
    if d.init != 0:
        ctx.ev("initial state not 0")
    return m


def restrict(d):
    """Reachable part, renumbered."""
    keep = d.reachable()
    tr = {q: {a: r for a, r in t.items()} for q, t in d.tr.items() if q in keep}
    e = gen.Dfa(len(keep), d.init, d.finals & keep, tr)
    qs = sorted(keep)
    m = {q: i for i, q in enumerate(qs)}
    return gen.Dfa(len(qs), m[d.init], {m[q] for q in e.finals}, {m[q]: {a: m[r] for a, r in t.items()} for q, t in tr.items()})


def build(ctx, d):
    r = ctx.rng
    ctx.note(dfa=d)
    g, _ = gen.build_dfa(IncidenceAutomaton, d, r, churn=r.random() < 0.3)
    return g


def rand(ctx):
    r = ctx.rng
    d = gen.dfa(r, n_max=r.choice([1, 3, 6, 9]), complete=r.random() < 0.6)
    if r.random() < 0.5:
        d = restrict(d)
    judge(ctx, d, build(ctx, d))
    ctx.sample(dfa=d)


def blow(ctx):
    """A small complete automaton with each state cloned: the clones must merge again."""
    r = ctx.rng
    al = r.choice([["a"], ["a", "b"], [0, 1, 2]])
    b = restrict(gen.dfa(r, n_max=r.choice([2, 4, 5]), alphabet=al, complete=r.random() < 0.8))
    clones, k = {}, 0
    for q in range(b.n):
        c = r.randint(1, 3)
        clones[q] = list(range(k, k + c))
        k += c
    tr = {}
    for q, t in b.tr.items():
        for c in clones[q]:
            tr[c] = {a: r.choice(clones[s]) for a, s in t.items()}
    d = restrict(gen.Dfa(k, r.choice(clones[b.init]), {c for q in b.finals for c in clones[q]}, tr))
    m = judge(ctx, d, build(ctx, d))
    ctx.expect(m.num_vertices() <= b.n, "clones of one state were not merged", base=b)


def cycles(ctx):
    """One-symbol cycles with periodic final states: the minimal automaton has the least period."""
    r = ctx.rng
    n = 1 + ctx.i % 24
    p = r.choice([x for x in range(1, n + 1) if n % x == 0])
    pat = [r.random() < 0.5 for _ in range(p)]
    d = gen.Dfa(n, r.randrange(n), {q for q in range(n) if pat[q % p]}, {q: {"a": (q + 1) % n} for q in range(n)})
    judge(ctx, d, build(ctx, d))


def nth(i):
    """All complete 3-state automata over {a, b}: 3^6 transition tables x 8 final sets."""
    i, f = divmod(i, 8)
    t = []
    for _ in range(6):
        i, x = divmod(i, 3)
        t.append(x)
    return gen.Dfa(3, 0, {q for q in range(3) if f >> q & 1}, {q: {"a": t[2 * q], "b": t[2 * q + 1]} for q in range(3)})


def exhaustive(ctx):
    i = ctx.i if ctx.thorough else (ctx.i * 4 + ctx.seed % 4)
    d = nth(i)
    ctx.note(dfa=d)
    g, _ = gen.build_dfa(IncidenceAutomaton, d)
    judge(ctx, d, g)


def large(ctx):
    r = ctx.rng
    d = restrict(gen.dfa(r, n_max=30, n_min=12, alphabet=["a", "b"], complete=True))
    judge(ctx, d, build(ctx, d))


def big(ctx):
    """Many states, wide alphabets; long one-symbol cycles with a period; chains where a refinement has many rounds."""
    r = ctx.rng
    k = ctx.i % 5
    if k == 4:  # many symbols, of which one tells states apart
        n = r.randint(2, 8)
        al = gen.wide_alphabet(r, r.choice([20, 80, 150]))
        a0 = r.choice(al)
        d = gen.Dfa(n, 0, {r.randrange(n)}, {q: {a: (q + 1) % n if a == a0 else q for a in al} for q in range(n)})
    elif k == 0:
        n = r.choice([60, 96, 180, 300])
        p = r.choice([x for x in range(1, n + 1) if n % x == 0])
        pat = [r.random() < 0.5 for _ in range(p)]
        d = gen.Dfa(n, r.randrange(n), {q for q in range(n) if pat[q % p]}, {q: {"a": (q + 1) % n} for q in range(n)})
    elif k == 1:  # only the last state of a chain is final: one class is split off at each round
        n = r.choice([60, 130, 270])
        tr = {q: {"a": min(q + 1, n - 1), "b": r.choice([0, q, min(q + 1, n - 1)])} for q in range(n)}
        d = gen.Dfa(n, 0, {n - 1}, tr)
    elif k == 2:
        al = gen.wide_alphabet(r, r.choice([40, 150, 270]))
        b = gen.dfa(r, n_max=4, n_min=2, alphabet=al, complete=r.random() < 0.8, density=None)
        m = r.choice([2, 3])
        d = restrict(gen.Dfa(b.n * m, b.init, {q + j * b.n for q in b.finals for j in range(m)},
                             {q + j * b.n: {a: s + r.randrange(m) * b.n for a, s in t.items()} for q, t in b.tr.items() for j in range(m)}))
    else:
        d = restrict(gen.dfa(r, n_max=150, n_min=60, alphabet=r.choice([["a", "b"], ["a", "b", "c", "d"]]), complete=r.random() < 0.7))
    judge(ctx, d, build(ctx, d))
    ctx.ev("many states or symbols")


def empty(ctx):
    """No state at all; a single one."""
    g = IncidenceAutomaton()
    m = hopcroft_minimize(g)
    ctx.eq((m.num_vertices(), m.num_edges()), (0, 0), "the automaton without states minimized")
    for fin in (False, True):
        d = gen.Dfa(1, 0, {0} if fin else set(), {0: {"a": 0}} if ctx.i % 2 else {})
        judge(ctx, d, build(ctx, d))
    ctx.ev("empty automaton")


FAMILIES = [
    Fam("empty", empty, 8, 16),
    Fam("big", big, 480, 9600),
    Fam("exhaustive", exhaustive, 1458, 5832),
    Fam("rand", rand, 12000, 240000),
    Fam("blow", blow, 6000, 120000),
    Fam("cycles", cycles, 120, 600),
    Fam("large", large, 400, 10000),
]
del itertools
