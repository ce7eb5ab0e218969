"""C10: pruning compared with forward/backward reachability computed on the abstract automaton."""
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
from pybgl.prune_incidence_automaton import find_reachable_vertices, prune_incidence_automaton

from .. import gen
from ..core import Fam

ANCHORS = ["prune_incidence_automaton.py", "reverse.py", "depth_first_search.py", "incidence_automaton.py", "incidence_node_automaton.py"]
RULE = (
    "A case is an automaton (edge- or node-labelled) pruned and compared, state by state, with the states lying on a path from the initial to a final state. "
    "Non-trivial: some but not all states are removed; distinct by automaton."
)
REQUIRED = ["node automaton", "edge automaton", "empty language", "unreachable removed", "dead removed", "nothing removed", "useless cycle", "reachability queries", "many states or symbols"]
ASSUMPTIONS = ["when no final state is reachable, no state is on a path from the initial state to a final state: all are removed (existing behaviour)"]


def observe(g, node):
    vs = sorted(g.vertices())
    es = sorted(((g.source(e), g.target(e), g.label(e)) for e in g.edges()), key=repr)
    return vs, es, {q for q in vs if g.is_final(q)}, ({q: g.symbol(q) for q in vs} if node else None)


def judge(ctx, g, d, ids, node):
    """d: abstract automaton (states renamed by ids)."""
    keep0 = d.reachable() & d.coreachable()
    keep = {ids[q] for q in keep0}
    vs, es, fin, sym = observe(g, node)
    ini = g.initial()
    for srcs in (set(), {ids[d.init]}, {v for v in vs if ctx.rng.random() < 0.3}):
        E = [(a, b) for a, b, _ in es]
        ctx.eq(set(find_reachable_vertices(g, set(srcs))), gen.closure(None, E, srcs), "find_reachable_vertices()", sources=srcs)
        ctx.ev("reachability queries")
    ctx.eq(observe(g, node), (vs, es, fin, sym), "a reachability query altered the automaton")
    prune_incidence_automaton(g)
    vs2, es2, fin2, sym2 = observe(g, node)
    ctx.eq(vs2, sorted(keep), "states kept", before=vs, edges=es)
    ctx.eq(es2, sorted([e for e in es if e[0] in keep and e[1] in keep], key=repr), "transitions kept")
    ctx.eq(fin2, fin & keep, "final states kept")
    ctx.eq(g.num_vertices(), len(keep), "num_vertices()")
    ctx.eq(g.num_edges(), len(es2), "num_edges()")
    if node:
        ctx.eq(sym2, {q: sym[q] for q in keep}, "symbols kept")
    inn = sorted(((g.source(e), g.target(e), g.label(e)) for q in vs2 for e in g.in_edges(q)), key=repr)
    ctx.eq(inn, es2, "in-edges kept")
    out = sorted(((g.source(e), g.target(e), g.label(e)) for q in vs2 for e in g.out_edges(q)), key=repr)
    ctx.eq(out, es2, "out-edges kept")
    for q in vs2:
        for s, t, a in es2:
            if s == q:
                ctx.eq(g.delta(q, a), t, "delta()", q=q, a=a)
        for e in g.in_edges(q):
            ctx.eq(g.target(e), q, "target of an in-edge")
        for e in g.out_edges(q):
            ctx.eq(g.source(e), q, "source of an out-edge")
    if keep:
        ctx.eq(g.initial(), ini, "initial state")
        D = gen.read_dfa(g)
        dd = gen.Dfa(d.n, ids[d.init], {ids[q] for q in d.finals}, {ids[q]: {a: ids[x] for a, x in t.items()} for q, t in d.tr.items()})
        w = gen.difference(dd, D)
        ctx.expect(w is None, "the language changed", word=w)
        for x in gen.words(ctx.rng, sorted(d.alphabet(), key=repr), 5, 6):
            ctx.eq(bool(g.accepts(x)), d.accepts(x), "accepts() after pruning", word=x)
    else:
        ctx.ev("empty language")
    ctx.ev("node automaton" if node else "edge automaton")
    allq = set(range(d.n))
    if allq - d.reachable():
        ctx.ev("unreachable removed")
    if d.reachable() - d.coreachable():
        ctx.ev("dead removed")
    if keep0 == allq:
        ctx.ev("nothing removed")
    E = [(q, s) for q, s, _ in d.edges()]
    if any(q not in keep0 and q in gen.closure(None, E, [s]) for q, s in E):
        ctx.ev("useless cycle")
    if keep0 and keep0 != allq:
        ctx.nontrivial(repr(d), node)
    # pruning again changes nothing
    if keep:
        prune_incidence_automaton(g)
        ctx.eq(observe(g, node), (vs2, es2, fin2, sym2), "pruning twice is not pruning once")


def edge(ctx):
    r = ctx.rng
    d = gen.dfa(r, n_max=r.choice([1, 4, 7, 10]), density=r.choice([0.2, 0.4, 0.6, 0.9]))
    if r.random() < 0.5:
        d.finals = {q for q in range(d.n) if r.random() < 0.25}
    ctx.note(dfa=d)
    g, ids = gen.build_dfa(IncidenceAutomaton, d, r, churn=r.random() < 0.4)
    judge(ctx, g, d, ids, False)
    ctx.sample(dfa=d)


def node(ctx):
    r = ctx.rng
    d, sym = gen.node_dfa(r, n_max=r.choice([1, 4, 7, 10]), density=r.choice([0.15, 0.3, 0.6]))
    if r.random() < 0.5:
        d.finals = {q for q in range(d.n) if r.random() < 0.25}
    ctx.note(dfa=d, symbols=sym)
    g, ids = gen.build_node_dfa(IncidenceNodeAutomaton, d, sym, r)
    judge(ctx, g, d, ids, True)


def exhaustive(ctx):
    """Every digraph with at most 3 states, all final sets, initial state 0 (one symbol per transition)."""
    i, f = divmod(ctx.i, 8)
    n, E = gen.nth_digraph(i + 1, 3)
    tr = {}
    for q, s in E:
        tr.setdefault(q, {})["abc"[s]] = s
    d = gen.Dfa(n, 0, {q for q in range(n) if f >> q & 1}, tr)
    ctx.note(dfa=d)
    g, ids = gen.build_dfa(IncidenceAutomaton, d)
    judge(ctx, g, d, ids, False)


def deep(ctx):
    r = ctx.rng
    n = r.randint(1200, 2500)
    cut = r.randrange(n)
    d = gen.Dfa(n, 0, {cut}, {q: {"a": q + 1} for q in range(n - 1)})
    g, ids = gen.build_dfa(IncidenceAutomaton, d)
    prune_incidence_automaton(g)
    ctx.eq(sorted(g.vertices()), [ids[q] for q in range(cut + 1)], "states kept on a long chain")


def big(ctx):
    """Many states, wide alphabets."""
    r = ctx.rng
    d = gen.big_dfa(r)
    for _ in range(r.choice([0, 3, 30])):
        q = r.randrange(d.n)
        d.tr.pop(q, None)
    d.finals = {q for q in range(d.n) if r.random() < r.choice([0.01, 0.1, 0.5])}
    d.init = r.choice([0, 0, r.randrange(d.n)])
    ctx.note(dfa=d)
    g, ids = gen.build_dfa(IncidenceAutomaton, d, r, churn=r.random() < 0.4)
    judge(ctx, g, d, ids, False)
    ctx.ev("many states or symbols")


FAMILIES = [
    Fam("big", big, 400, 8000),
    Fam("exhaustive", exhaustive, (gen.num_digraphs(3) - 1) * 8, (gen.num_digraphs(3) - 1) * 8),
    Fam("edge", edge, 12000, 240000),
    Fam("node", node, 10000, 200000),
    Fam("deep", deep, 8, 40),
]
