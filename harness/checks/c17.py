"""C17: depth-first search judged on its event trace."""
from collections import defaultdict

from pybgl.depth_first_search import DefaultDepthFirstSearchVisitor, depth_first_search, depth_first_search_graph
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.automaton import Automaton
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_graph import IncidenceGraph
from pybgl.property_map import make_assoc_property_map

from .. import gen
from ..core import Fam
from ..traces import DFS_EVENTS, Model, check_dfs, recorder

ANCHORS = ["depth_first_search.py"]
RULE = (
    "A case is a graph (all digraphs with at most 3 vertices in the exhaustive family, random ones otherwise) searched from one, several or all vertices with a "
    "recording visitor; the whole event trace is replayed against a stack and three colours. Non-trivial: the trace has a tree edge and another edge; "
    "distinct by graph, sources and filter."
)
REQUIRED = ["vertices visited", "trace events", "target white", "target gray", "target black", "undirected", "filtered", "several sources", "no source", "whole graph", "beyond the recursion limit", "no visitor", "resumed colours", "large graphs"]
ASSUMPTIONS = ["sources are vertices of the graph", "the filter is a function of the edge"]


def judge(ctx, g, sources, rejected=frozenset(), mode="graph"):
    r = ctx.rng
    m = Model(g, lambda e: e not in rejected)
    log = []
    vis = recorder(DefaultDepthFirstSearchVisitor, DFS_EVENTS, log)
    kw = {}
    if rejected or r.random() < 0.2:
        kw["if_push"] = lambda e, g_: e not in rejected
        ctx.ev("filtered", int(bool(rejected)))
    cm = None
    if r.random() < 0.5:
        cm = defaultdict(int)
        kw["pmap_vcolor"] = make_assoc_property_map(cm)
    before = (sorted(m.vs), sorted(map(repr, g.edges())))
    if mode == "single":
        (s,) = sources
        depth_first_search(s, g, vis=vis, **kw)
    elif mode == "whole":
        sources = set(m.vs)
        depth_first_search_graph(g, vis=vis, **kw)
        ctx.ev("whole graph")
    else:
        src = set(sources) if r.random() < 0.5 else list(sources)
        if r.random() < 0.2:
            depth_first_search_graph(g, src, kw.get("pmap_vcolor"), vis, kw.get("if_push"))
        else:
            depth_first_search_graph(g, src, vis=vis, **kw)
    ctx.note(trace=[(x[0], x[1]) for x in log])
    ctx.eq((sorted(g.vertices()), sorted(map(repr, g.edges()))), before, "the search altered the graph")
    check_dfs(ctx, g, m, log, set(sources), True)
    if cm is not None:
        reach = m.reach(sources)
        ctx.eq({v: cm[v] for v in m.vs}, {v: 2 if v in reach else 0 for v in m.vs}, "final colours")
    if len(sources) > 1:
        ctx.ev("several sources")
    if not sources:
        ctx.ev("no source")
    names = {x[0] for x in log}
    return "tree_edge" in names and ("back_edge" in names or "forward_or_cross_edge" in names)


def rand(ctx):
    r = ctx.rng
    n, E = gen.digraph(r, n_max=r.choice([1, 4, 8, 14]))
    G = r.choice([DirectedGraph, DirectedGraph, UndirectedGraph, IncidenceGraph])
    g, ids, es = gen.build(G, n, E, r, churn=r.random() < 0.3)
    if G is UndirectedGraph:
        ctx.ev("undirected")
    rejected = frozenset()
    if r.random() < 0.4:
        alle = [e for u in g.vertices() for e in g.out_edges(u)]
        rejected = frozenset(e for e in alle if r.random() < 0.3)
    mode = r.choice(["single", "graph", "whole"] if n else ["graph", "whole"])
    S = [r.choice(ids)] if mode == "single" else r.sample(ids, r.randint(0, min(n, 4)))
    if mode == "graph" and S and r.random() < 0.2:
        S = S + [r.choice(S)]
    ctx.note(kind=G.__name__, n=n, edges=E, mode=mode, sources=S, rejected=sorted(map(repr, rejected)))
    if judge(ctx, g, S, rejected, mode):
        ctx.nontrivial(G.__name__, n, E, mode, S, sorted(map(repr, rejected)))
    ctx.sample(kind=G.__name__, n=n, edges=E, sources=S)


def exhaustive(ctx):
    i, s = divmod(ctx.i, 3)
    n, E = gen.nth_digraph(i + 1, 3)
    G = DirectedGraph if ctx.rng.random() < 0.7 else UndirectedGraph
    g, ids, _ = gen.build(G, n, E)
    ctx.note(kind=G.__name__, n=n, edges=E, source=s % n)
    if judge(ctx, g, [ids[s % n]], frozenset(), ["single", "whole"][i % 2]):
        ctx.nontrivial(G.__name__, n, E, s % n)


def resumed(ctx):
    """Two searches sharing the colours: the second visits what the first left."""
    r = ctx.rng
    n, E = gen.digraph(r, n_max=9, n_min=2)
    g, ids, _ = gen.build(DirectedGraph, n, E, r)
    a, b = r.sample(ids, 2)
    ctx.note(n=n, edges=E, first=a, second=b)
    m = Model(g)
    cm = defaultdict(int)
    p = make_assoc_property_map(cm)
    depth_first_search(a, g, pmap_vcolor=p)
    ra = m.reach([a])
    ctx.eq({v for v in m.vs if cm[v] == 2}, ra, "vertices coloured by a search without visitor")
    log = []
    depth_first_search_graph(g, [a, b], p, recorder(DefaultDepthFirstSearchVisitor, DFS_EVENTS, log))
    got = [x[1] for x in log if x[0] == "discover_vertex"]
    ctx.eq(sorted(got), sorted(m.reach([b]) - ra if b not in ra else []), "vertices discovered by the second search")
    depth_first_search_graph(g)
    depth_first_search(a, g)
    ctx.ev("no visitor")
    ctx.ev("resumed colours")


def deep(ctx):
    r = ctx.rng
    n = r.randint(3000, 6000)
    E = [(k, k + 1) for k in range(n - 1)]
    if ctx.i % 2:
        E.append((n - 1, 0))
    G = UndirectedGraph if ctx.i % 3 == 2 else DirectedGraph
    g, ids, _ = gen.build(G, n, E)
    judge(ctx, g, [ids[0]], frozenset(), "single")
    ctx.ev("beyond the recursion limit")


def dense(ctx):
    r = ctx.rng
    n = r.randint(15, 40)
    E = [(r.randrange(n), r.randrange(n)) for _ in range(r.randint(n, 8 * n))]
    g, ids, _ = gen.build(r.choice([DirectedGraph, UndirectedGraph]), n, E)
    ctx.note(n=n, edges=E)
    if judge(ctx, g, [], frozenset(), "whole"):
        ctx.nontrivial(n, E)


def large(ctx):
    """Stars, grids, long chains, many parallel edges, many sources, many refused edges; automata searched as graphs."""
    r = ctx.rng
    if ctx.i % 5 == 4:
        d = gen.big_dfa(r, scale=0.5) if r.random() < 0.3 else gen.dfa(r, n_max=8)
        g, m = gen.build_dfa(r.choice([Automaton, IncidenceAutomaton]), d, r)
        n, E, ids = d.n, d.edges(), [m[q] for q in range(d.n)]
    else:
        n, E = gen.big_digraph(r, scale=r.choice([0.3, 1]))
        g, ids, _ = gen.build(r.choice([DirectedGraph, DirectedGraph, UndirectedGraph, IncidenceGraph]), n, E, r, churn=r.random() < 0.3)
    alle = [e for u in g.vertices() for e in g.out_edges(u)]
    p = r.choice([0, 0, 0.02, 0.3])
    rejected = frozenset(e for e in alle if r.random() < p)
    k = r.choice([1, 2, 30, n])
    S = r.sample(ids, min(n, k))
    mode = ('single' if k == 1 and r.random() < 0.5 else 'whole' if r.random() < 0.3 else 'graph')
    ctx.note(kind=type(g).__name__, n=n, edges=E, sources=S, mode=mode)
    if judge(ctx, g, S, rejected, mode):
        ctx.nontrivial(type(g).__name__, n, repr(E)[:2000], repr(S)[:200])
    ctx.ev("large graphs")


FAMILIES = [
    Fam("large", large, 600, 12000),
    Fam("exhaustive", exhaustive, (gen.num_digraphs(3) - 1) * 3, (gen.num_digraphs(3) - 1) * 3),
    Fam("rand", rand, 16000, 320000),
    Fam("resumed", resumed, 1600, 32000),
    Fam("dense", dense, 240, 6000),
    Fam("deep", deep, 8, 60),
]
