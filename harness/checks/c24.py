"""C24: vertex cut of an acyclic graph recomputed from the paths without selected edge."""
from pybgl.automaton import Automaton
from pybgl.cut import cut
from pybgl.graph import DirectedGraph
from pybgl.incidence_graph import IncidenceGraph

from .. import gen
from ..core import Fam

ANCHORS = ["cut.py", "depth_first_search.py"]
RULE = (
    "A case is an acyclic graph, a source and a set of selected edges; the cut is recomputed from the vertices reached without selected edge, and every path to a "
    "sink is checked to meet it. Non-trivial: some selected edge and some sink reached without selected edge are both involved; distinct by case."
)
REQUIRED = ["cuts", "selected edges met", "sinks reached", "selected edges hidden", "source is a sink", "parallel edges", "paths checked", "target also reached otherwise", "large graphs"]
ASSUMPTIONS = ["the graph is acyclic (documented) and the predicate a function of the edge"]


def judge(ctx, g, s, sel):
    E = [(g.source(e), g.target(e), e) for e in g.edges()]
    open_ = gen.closure(None, [(u, v) for u, v, e in E if e not in sel], [s])
    outs = {}
    for u, v, e in E:
        outs.setdefault(u, []).append((v, e))
    first = {v for u, v, e in E if u in open_ and e in sel}
    sinks = {u for u in open_ if u not in outs}
    before = (sorted(g.vertices()), sorted(map(repr, g.edges())))

    def in_cut(e, h):
        assert h is g
        return e in sel

    got = cut(s, g, in_cut)
    ctx.eq(set(got), first | sinks, "the cut is not made of the first selected edges' targets and of the sinks met before any", first=first, sinks=sinks)
    ctx.eq((sorted(g.vertices()), sorted(map(repr, g.edges()))), before, "the graph was altered")
    # every path from s to a sink meets the cut
    got = set(got)
    seen, todo = set(), [s]
    while todo:
        u = todo.pop()
        if u in got or u in seen:
            continue
        seen.add(u)
        ctx.expect(u in outs, "a path reaches a sink without meeting the cut", sink=u)
        todo += [v for v, _ in outs[u]]
    ctx.ev("paths checked")
    ctx.ev("cuts")
    ctx.ev("selected edges met", len(first))
    ctx.ev("sinks reached", len(sinks))
    ctx.ev("selected edges hidden", sum(u not in open_ for u, v, e in E if e in sel))
    ctx.ev("source is a sink", int(s in sinks))
    ctx.ev("parallel edges", len(E) - len({(u, v) for u, v, _ in E}))
    ctx.ev("target also reached otherwise", len(first & open_))
    return bool(first and sinks)


def rand(ctx):
    r = ctx.rng
    n, E = gen.digraph(r, n_max=r.choice([2, 5, 9, 14]), kind=r.choice(["dag", "tree", "layers"]), n_min=1)
    if r.random() < 0.3 and E:
        E = E + [r.choice(E) for _ in range(2)]
    if r.random() < 0.2:
        E = []
    g, ids, es = gen.build(r.choice([DirectedGraph, IncidenceGraph]), n, E, r, churn=r.random() < 0.3)
    p = r.choice([0.0, 0.1, 0.3, 0.6, 1.0])
    sel = {e for e in es if r.random() < p}
    s = r.choice(ids)
    ctx.note(n=n, edges=E, selected=sorted(map(repr, sel)), source=s)
    if judge(ctx, g, s, sel):
        ctx.nontrivial(n, E, sorted(map(repr, sel)), s)
    ctx.sample(n=n, edges=E, selected=sorted(map(repr, sel)), source=s)


def automata(ctx):
    """Cutting an acyclic automaton on its symbols."""
    r = ctx.rng
    d = gen.dfa(r, n_max=9, alphabet=["a", "b", "c"], acyclic=True)
    g, ids = gen.build_dfa(Automaton, d, r)
    S = set(r.sample("abc", r.randint(0, 2)))
    sel = {e for e in g.edges() if g.label(e) in S}
    ctx.note(dfa=d, symbols=S)
    if judge(ctx, g, ids[d.init], sel):
        ctx.nontrivial(repr(d), sorted(S))


def exhaustive(ctx):
    """Every DAG on 4 ordered vertices, every selection of its edges."""
    pairs = [(u, v) for u in range(4) for v in range(u + 1, 4)]
    i, E, S = ctx.i, [], []
    for p in pairs:
        i, x = divmod(i, 3)
        if x:
            E.append(p)
            S.append(x == 2)
    g, ids, es = gen.build(DirectedGraph, 4, E)
    sel = {e for e, b in zip(es, S) if b}
    ctx.note(edges=E, selected=S)
    if judge(ctx, g, ids[0], sel):
        ctx.nontrivial(E, S)


def large(ctx):
    """Long chains, grids, stars, deep forests, many parallel edges."""
    r = ctx.rng
    n, E = gen.big_digraph(r, kind=r.choice(["dag", "forest", "grid", "comb", "chain", "out star", "in star", "parallel"]), scale=r.choice([0.3, 1]), loops=False)
    if r.random() < 0.2:
        n = 1500
        E = [(k, k + 1) for k in range(n - 1)]
    rank = {u: k for k, u in enumerate(r.sample(range(n), n))}
    if not dag(n, E):
        E = [(u, v) if rank[u] < rank[v] else (v, u) for u, v in E]
    wide = r.random() < 0.15
    if wide:
        n, E = gen.lens(r)
    g, ids, es = gen.build(r.choice([DirectedGraph, IncidenceGraph]), n, E, r, churn=r.random() < 0.3)
    p = r.choice([0.0, 0.01, 0.1, 0.5, 0.9, 1.0])
    sel = {e for e in es if r.random() < p}
    if wide and r.random() < 0.7:
        # all of a layer, or nearly
        sel = {e for e in es if g.source(e) != ids[0] and (p > 0.5 or g.target(e) == ids[n - 1]) and r.random() < 0.98}
    ind = {v for _, v in E}
    s = r.choice([ids[k] for k in range(n) if k not in ind]) if r.random() < 0.8 else r.choice(ids)
    ctx.note(n=n, edges=E, selected=sorted(map(repr, sel)), source=s)
    if judge(ctx, g, s, sel):
        ctx.nontrivial(n, repr(E)[:2000], len(sel), s)
    ctx.ev("large graphs")


def dag(n, E):
    indeg = [0] * n
    adj = [[] for _ in range(n)]
    for u, v in E:
        indeg[v] += 1
        adj[u].append(v)
    todo = [v for v in range(n) if not indeg[v]]
    for u in todo:
        for v in adj[u]:
            indeg[v] -= 1
            if not indeg[v]:
                todo.append(v)
    return len(todo) == n


FAMILIES = [
    Fam("large", large, 600, 12000),
    Fam("exhaustive", exhaustive, 729, 729),
    Fam("rand", rand, 14000, 280000),
    Fam("automata", automata, 3200, 40000),
]
