"""C18: the parallel search of two automata judged on its event trace."""
from collections import Counter, defaultdict

from pybgl.automaton import Automaton
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.parallel_breadth_first_search import ParallelBreadthFirstSearchVisitor, parallel_breadth_first_search
from pybgl.property_map import make_assoc_property_map

from .. import gen
from ..core import Fam
from .c11 import operand
from ..traces import recorder

ANCHORS = ["parallel_breadth_first_search.py"]
EVENTS = ["start_vertex", "examine_vertex", "discover_vertex", "finish_vertex", "examine_symbol", "examine_edge", "tree_edge", "gray_target", "black_target"]
RULE = (
    "A case is a pair of deterministic automata searched from their initial pair, or from given pairs, with a recording visitor and possibly a filter; the whole "
    "trace is replayed against a queue of pairs and three colours. Non-trivial: some pair with a dead side and some pair with both sides alive are "
    "visited; distinct by case."
)
REQUIRED = ["pairs visited", "dead sides", "target white", "target gray", "target black", "filtered", "refused", "source pairs given", "colours given", "node operand", "no visitor", "large automata"]
ASSUMPTIONS = ["source pairs are distinct", "the filter is a function of the pair of transitions", "the events announced for a refused transition to an already reached pair are not judged"]


def judge(ctx, d1, g1, d2, g2, ids1, ids2, sources=None, reject=None):
    """d1/d2 renamed to the identifiers of g1/g2."""
    r = ctx.rng
    log = []
    vis = recorder(ParallelBreadthFirstSearchVisitor, EVENTS, log)
    kw = {"vis": vis}
    srcs = [(d1.init, d2.init)] if sources is None else sources
    if sources is not None:
        kw["source_pairs"] = r.choice([list, iter, set])(sources)
        if isinstance(kw["source_pairs"], set):
            srcs = list(kw["source_pairs"])
        ctx.ev("source pairs given")
    cm = None
    if r.random() < 0.5:
        cm = defaultdict(int)
        kw["pmap_vcolor"] = make_assoc_property_map(cm)
        ctx.ev("colours given")

    def key(e1, e2):
        def one(e, g):
            if e is None:
                return None
            # a transition missing in a node automaton has no symbol of its own
            return (g.source(e), g.target(e), g.label(e) if g.target(e) is not None else None)
        return (one(e1, g1), one(e2, g2))

    def accepted(k):
        return reject is None or not reject(k)

    if reject is not None:
        ctx.ev("filtered")

        def if_push(e1, h1, e2, h2):
            assert h1 is g1 and h2 is g2
            return accepted(key(e1, e2))
        kw["if_push"] = if_push
    snaps = gen.snapshot(g1), gen.snapshot(g2)
    parallel_breadth_first_search(g1, g2, **kw)
    ctx.eq((gen.snapshot(g1), gen.snapshot(g2)), snaps, "the search altered an automaton")
    ctx.note(trace=[(x[0],) + tuple(y for y in x[1:] if y is not g1 and y is not g2) for x in log])
    for x in log:
        ctx.expect(x[2] is g1 and x[4] is g2, "an event does not carry the two automata in their order", event=x[0])

    outs = {}

    def out(p):
        if p in outs:
            return outs[p]
        res = outs[p] = {}
        q1, q2 = p
        for a in set(d1.tr.get(q1, ())) | set(d2.tr.get(q2, ())):
            r1, r2 = d1.delta(q1, a), d2.delta(q2, a)
            e1 = None if q1 is None else (q1, r1, a if r1 is not None else None)
            e2 = None if q2 is None else (q2, r2, a if r2 is not None else None)
            res[a] = (e1, e2)
        return res

    # reachable pairs
    seen, todo = set(srcs), list(srcs)
    for p in todo:
        for a, k in out(p).items():
            n = (d1.delta(p[0], a), d2.delta(p[1], a))
            if n not in seen and accepted(k):
                seen.add(n)
                todo.append(n)
    k = 0
    started = []
    while k < len(log) and log[k][0] == "start_vertex":
        started.append((log[k][1], log[k][3]))
        k += 1
    ctx.eq(Counter(started), Counter(srcs), "pairs started")
    color = {p: 1 for p in started}
    examined, later = [], []
    cur, syms = None, None
    while k < len(log):
        x = log[k]
        name = x[0]
        p = (x[1], x[3])
        if name == "examine_vertex":
            ctx.expect(cur is None, "a pair is examined before the previous one is finished", pair=p, previous=cur)
            ctx.eq(color.get(p), 1, "the pair examined is not in the queue", pair=p)
            cur, syms = p, []
            examined.append(p)
        elif name == "finish_vertex":
            ctx.eq(p, cur, "finish_vertex() on another pair than the one examined")
            ctx.eq(Counter(syms), Counter(out(cur).keys()), "symbols examined are not the outgoing symbols of the pair", pair=cur)
            color[p] = 2
            cur = None
        elif name == "examine_symbol":
            ctx.eq(p, cur, "examine_symbol() on another pair than the one examined")
            a = x[5]
            ctx.expect(a in out(cur), "a symbol examined is not an outgoing symbol", pair=cur, symbol=a)
            syms.append(a)
            kk = out(cur)[a]
            y = log[k + 1] if k + 1 < len(log) else (None,)
            ctx.eq(y[0], "examine_edge", "examine_symbol() is not followed by examine_edge()")
            ctx.eq((key(y[1], y[3]), y[5]), (kk, a), "transitions examined")
            n = (d1.delta(cur[0], a), d2.delta(cur[1], a))
            c = color.get(n, 0)
            follow = []
            j = k + 2
            while j < len(log) and log[j][0] in ("tree_edge", "gray_target", "black_target", "discover_vertex"):
                z = log[j]
                follow.append((z[0],) + (((z[1], z[3]),) if z[0] == "discover_vertex" else (key(z[1], z[3]), z[5])))
                j += 1
            ok = accepted(kk)
            ctx.ev(f"target {'white gray black'.split()[c]}")
            if c == 0 and ok:
                ctx.eq(follow, [("tree_edge", kk, a), ("discover_vertex", n)], "events of a transition to a new pair", pair=cur, symbol=a)
                color[n] = 1
                later.append(n)
            elif c == 0:
                ctx.ev("refused")
                ctx.eq([f for f in follow if f[0] in ("tree_edge", "discover_vertex")], [], "a refused transition was followed", pair=cur, symbol=a)
            elif ok:
                ctx.eq(follow, [("gray_target" if c == 1 else "black_target", kk, a)], "events of a transition to a known pair", pair=cur, symbol=a)
            else:
                ctx.eq([f for f in follow if f[0] in ("tree_edge", "discover_vertex")], [], "a refused transition was followed", pair=cur, symbol=a)
            k = j - 1
        else:
            ctx.fail("unexpected event", event=name, at=k)
        k += 1
    ctx.expect(cur is None, "a pair is never finished", pair=cur)
    ctx.eq(Counter(examined), Counter(seen), "pairs visited are not those reachable")
    n = len(srcs)
    ctx.eq(examined[:n], list(srcs), "source pairs are not examined first, in the order given")
    ctx.eq(examined[n:], later, "pairs are not examined in the order of their discovery")
    if cm is not None:
        ctx.eq({p: c for p, c in cm.items() if c}, {p: 2 for p in seen}, "final colours")
    ctx.ev("pairs visited", len(examined))
    dead = sum(None in p for p in examined)
    ctx.ev("dead sides", dead)
    return 0 < dead < len(examined)


def rename(d, g, ids):
    return gen.Dfa(d.n, ids[d.init], {ids[q] for q in d.finals}, {ids[q]: {a: ids[s] for a, s in t.items()} for q, t in d.tr.items()})


def rand(ctx):
    r = ctx.rng
    al = r.choice(gen.ALPHABETS)
    _, g1 = operand(ctx, al)
    _, g2 = operand(ctx, al if r.random() < 0.8 else r.choice(gen.ALPHABETS))
    if r.random() < 0.05:
        g2 = g1
    d1, d2 = gen.read_dfa(g1), gen.read_dfa(g2)
    sources = None
    if r.random() < 0.3:
        P = [(a, b) for a in list(g1.vertices()) + [None] for b in list(g2.vertices()) + [None] if (a, b) != (None, None)]
        sources = r.sample(P, r.randint(0, min(3, len(P))))
    reject = None
    if r.random() < 0.4:
        m = r.random()
        if m < 0.4:
            reject = lambda k: k[0] is None or k[0][1] is None or k[1] is None or k[1][1] is None  # noqa: E731
        elif m < 0.6:
            reject = lambda k: k[1] is None or k[1][1] is None  # noqa: E731
        else:
            salt = r.randrange(1 << 30)
            import zlib
            one = {}  # equal symbols (0 and False) are one symbol
            canon = lambda e: e and (e[0], e[1], one.setdefault(e[2], e[2]))  # noqa: E731
            reject = lambda k: zlib.crc32(repr((salt, canon(k[0]), canon(k[1]))).encode("utf8", "backslashreplace")) % 4 == 0  # noqa: E731
    ctx.note(g1=d1, g2=d2, sources=sources, filtered=reject is not None)
    if judge(ctx, d1, g1, d2, g2, None, None, sources, reject):
        ctx.nontrivial(repr(d1), repr(d2), sources, ctx.i if reject else None)
    ctx.sample(g1=d1, g2=d2, sources=sources)


def quiet(ctx):
    r = ctx.rng
    al = ["a", "b"]
    _, g1 = operand(ctx, al)
    _, g2 = operand(ctx, al)
    d1, d2 = gen.read_dfa(g1), gen.read_dfa(g2)
    ctx.note(g1=d1, g2=d2)
    cm = defaultdict(int)
    parallel_breadth_first_search(g1, g2, pmap_vcolor=make_assoc_property_map(cm))
    seen, todo = {(d1.init, d2.init)}, [(d1.init, d2.init)]
    for p in todo:
        for a in set(d1.tr.get(p[0], ())) | set(d2.tr.get(p[1], ())):
            n = (d1.delta(p[0], a), d2.delta(p[1], a))
            if n not in seen:
                seen.add(n)
                todo.append(n)
    ctx.eq({p: c for p, c in cm.items() if c}, {p: 2 for p in seen}, "final colours")
    parallel_breadth_first_search(g1, g2)
    ctx.ev("no visitor")


def chain(ctx):
    """Long cycles of coprime lengths: every pair is visited."""
    r = ctx.rng
    a, b = r.choice([(7, 9), (5, 12), (13, 11), (16, 25)])
    mk = lambda n: gen.Dfa(n, 0, {0}, {q: {"a": (q + 1) % n} for q in range(n)})  # noqa: E731
    g1, g2 = gen.build_dfa(Automaton, mk(a), r)[0], gen.build_dfa(Automaton, mk(b), r)[0]
    d1, d2 = gen.read_dfa(g1), gen.read_dfa(g2)
    judge(ctx, d1, g1, d2, g2, None, None)


def big(ctx):
    """Large automata or alphabets."""
    r = ctx.rng
    kind = r.choice(["chain", "ring", "tree", "wide", "hub", "random"])
    al = gen.wide_alphabet(r, r.choice([50, 270])) if kind in ("wide", "hub") else r.choice([["a", "b"], ["a"], [("x", 1), "y"]])
    a = gen.big_dfa(r, kind, al, 0.4)
    b = gen.dfa(r, 4, al, n_min=2) if r.random() < 0.5 else gen.Dfa(a.n, a.init, a.finals, {q: dict(t) for q, t in a.tr.items() if r.random() < 0.97})
    if r.random() < 0.5:
        a, b = b, a
    g1, g2 = gen.build_dfa(r.choice([Automaton, IncidenceAutomaton]), a, r)[0], gen.build_dfa(Automaton, b, r)[0]
    d1, d2 = gen.read_dfa(g1), gen.read_dfa(g2)
    sources = None
    if r.random() < 0.4:
        v1, v2 = list(g1.vertices()), list(g2.vertices())
        sources = sorted({(r.choice(v1), r.choice(v2)) for _ in range(r.choice([5, 12, 40, 150]))})
        r.shuffle(sources)
    reject = None
    if r.random() < 0.3:
        reject = lambda k: k[1] is None or k[1][1] is None  # noqa: E731
    ctx.note(g1=d1, g2=d2, sources=sources)
    judge(ctx, d1, g1, d2, g2, None, None, sources, reject)
    ctx.ev("large automata")
    ctx.nontrivial(repr(a)[:500], repr(b)[:500])


FAMILIES = [
    Fam("big", big, 300, 6000),
    Fam("rand", rand, 15000, 300000),
    Fam("quiet", quiet, 300, 5000),
    Fam("chain", chain, 24, 100),
]
