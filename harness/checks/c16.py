"""C16: breadth-first search judged on its event trace."""
from collections import defaultdict

from pybgl.breadth_first_search import DefaultBreadthFirstSearchVisitor, breadth_first_search, breadth_first_search_graph
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.graph_view import GraphView
from pybgl.automaton import Automaton
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_graph import IncidenceGraph
from pybgl.property_map import make_assoc_property_map, make_func_property_map

from .. import gen
from ..core import Fam
from ..traces import BFS_EVENTS, Model, check_bfs, recorder

ANCHORS = ["breadth_first_search.py"]
RULE = (
    "A case is a graph (all digraphs with at most 3 vertices from every source in the exhaustive family, random ones otherwise) searched from one or several "
    "sources with a recording visitor; the whole event trace is replayed against a queue and three colours. Non-trivial: the trace has a tree edge and a "
    "non-tree edge; distinct by graph, sources and filter."
)
REQUIRED = ["vertices visited", "trace events", "target white", "target gray", "target black", "undirected", "filtered", "several sources", "no source", "graph view", "colours given", "no visitor", "large graphs"]
ASSUMPTIONS = ["sources are distinct vertices of the graph", "the filter is a function of the edge"]


def judge(ctx, g, sources, rejected=frozenset(), single=False):
    r = ctx.rng
    m = Model(g, lambda e: e not in rejected)
    log = []
    vis = recorder(DefaultBreadthFirstSearchVisitor, BFS_EVENTS, log)
    kw = {}
    asked = []
    if rejected or r.random() < 0.2:
        def if_push(e, g_):
            asked.append(e)
            assert g_ is g
            return e not in rejected
        kw["if_push"] = if_push
        ctx.ev("filtered", int(bool(rejected)))
    cm = None
    if r.random() < 0.5:
        cm = defaultdict(int)
        kw["pmap_vcolor"] = make_assoc_property_map(cm)
        ctx.ev("colours given")
        if single and r.random() < 0.5:  # a single-source search initializes the colours itself
            for v in m.vs:
                cm[v] = r.randrange(3)
    before = (sorted(m.vs), sorted(map(repr, g.edges())))
    if single:
        (s,) = sources
        breadth_first_search(s, g, vis=vis, **kw)
    else:
        src = set(sources) if r.random() < 0.5 else iter(list(sources)) if r.random() < 0.5 else list(sources)
        if r.random() < 0.2:
            breadth_first_search_graph(g, src, kw.get("pmap_vcolor"), vis, kw.get("if_push"))
        else:
            breadth_first_search_graph(g, src, vis=vis, **kw)
    ctx.note(trace=[(x[0], x[1]) for x in log])
    ctx.eq((sorted(g.vertices()), sorted(map(repr, g.edges()))), before, "the search altered the graph")
    check_bfs(ctx, g, m, log, set(sources), single)
    if cm is not None:
        reach = m.reach(sources)
        ctx.eq({v: cm[v] for v in m.vs}, {v: 2 if v in reach else 0 for v in m.vs}, "final colours")
    if len(sources) > 1:
        ctx.ev("several sources")
    if not sources:
        ctx.ev("no source")
    names = {x[0] for x in log}
    if "tree_edge" in names and "non_tree_edge" in names:
        return True
    return False


def rand(ctx):
    r = ctx.rng
    n, E = gen.digraph(r, n_max=r.choice([1, 4, 8, 14]))
    G = r.choice([DirectedGraph, DirectedGraph, UndirectedGraph, IncidenceGraph])
    g, ids, es = gen.build(G, n, E, r, churn=r.random() < 0.3)
    if G is UndirectedGraph:
        ctx.ev("undirected")
    ctx.note(kind=G.__name__, n=n, edges=E)
    rejected = frozenset()
    if r.random() < 0.4:
        alle = [e for u in g.vertices() for e in g.out_edges(u)]
        rejected = frozenset(e for e in alle if r.random() < 0.3)
    single = n > 0 and r.random() < 0.5
    S = [r.choice(ids)] if single else r.sample(ids, r.randint(0, min(n, 4)))
    ctx.note(sources=S, rejected=sorted(map(repr, rejected)))
    if judge(ctx, g, S, rejected, single):
        ctx.nontrivial(G.__name__, n, E, S, sorted(map(repr, rejected)))
    ctx.sample(kind=G.__name__, n=n, edges=E, sources=S)


def exhaustive(ctx):
    i, s = divmod(ctx.i, 3)
    n, E = gen.nth_digraph(i + 1, 3)
    G = DirectedGraph if ctx.rng.random() < 0.7 else UndirectedGraph
    g, ids, _ = gen.build(G, n, E)
    ctx.note(kind=G.__name__, n=n, edges=E, source=s % n)
    if judge(ctx, g, [ids[s % n]], frozenset(), bool(i % 2)):
        ctx.nontrivial(G.__name__, n, E, s % n)


def view(ctx):
    """Searching a view is searching the subgraph it shows."""
    r = ctx.rng
    n, E = gen.digraph(r, n_max=8, n_min=1)
    g, ids, es = gen.build(DirectedGraph, n, E, r)
    kv = {v for v in ids if r.random() < 0.8} or {ids[0]}
    ke = {e for e in es if r.random() < 0.8}
    w = GraphView(g, make_func_property_map(lambda v: v in kv), make_func_property_map(lambda e: e in ke))
    s = r.choice(sorted(kv))
    ctx.note(n=n, edges=E, vertices=kv, kept=sorted(map(repr, ke)), source=s)
    log = []
    breadth_first_search_graph(w, {s}, vis=recorder(DefaultBreadthFirstSearchVisitor, BFS_EVENTS, log))

    class Sub:
        def vertices(self):
            return sorted(kv)

        def out_edges(self, u):
            return [e for e in g.out_edges(u) if e in ke and g.target(e) in kv]

        source, target = g.source, g.target

    m = Model(Sub())
    check_bfs(ctx, w, m, log, {s}, False)
    ctx.ev("graph view")


def quiet(ctx):
    """Without a visitor the search only colours the vertices."""
    r = ctx.rng
    n, E = gen.digraph(r, n_max=8, n_min=1)
    g, ids, _ = gen.build(r.choice([DirectedGraph, UndirectedGraph]), n, E, r)
    m = Model(g)
    s = r.choice(ids)
    ctx.note(n=n, edges=E, source=s)
    cm = defaultdict(int)
    if r.random() < 0.5:
        breadth_first_search(s, g, pmap_vcolor=make_assoc_property_map(cm))
    else:
        breadth_first_search_graph(g, {s}, pmap_vcolor=make_assoc_property_map(cm))
    ctx.eq({v: cm[v] for v in m.vs}, {v: 2 if v in m.reach([s]) else 0 for v in m.vs}, "final colours")
    breadth_first_search(s, g)
    ctx.ev("no visitor")


def big(ctx):
    r = ctx.rng
    if ctx.i % 2:
        n = r.randint(1500, 3000)
        E = [(k, k + 1) for k in range(n - 1)] + [(n - 1, 0)]
    else:
        n = 60
        E = [(r.randrange(n), r.randrange(n)) for _ in range(400)]
    g, ids, _ = gen.build(r.choice([DirectedGraph, UndirectedGraph]), n, E)
    judge(ctx, g, [ids[r.randrange(n)]], frozenset(), True)


def large(ctx):
    """Stars, grids, long chains, many parallel edges, many sources, many refused edges; automata searched as graphs."""
    r = ctx.rng
    if ctx.i % 5 == 4:
        d = gen.big_dfa(r, scale=0.5) if r.random() < 0.3 else gen.dfa(r, n_max=8)
        g, m = gen.build_dfa(r.choice([Automaton, IncidenceAutomaton]), d, r)
        n, E, ids = d.n, d.edges(), [m[q] for q in range(d.n)]
    else:
        n, E = gen.big_digraph(r, scale=r.choice([0.3, 1]))
        g, ids, _ = gen.build(r.choice([DirectedGraph, DirectedGraph, UndirectedGraph, IncidenceGraph]), n, E, r, churn=r.random() < 0.3)
    alle = [e for u in g.vertices() for e in g.out_edges(u)]
    p = r.choice([0, 0, 0.02, 0.3])
    rejected = frozenset(e for e in alle if r.random() < p)
    k = r.choice([1, 2, 30, n])
    S = r.sample(ids, min(n, k))
    mode = ('single' if k == 1 and r.random() < 0.5 else 'graph')
    ctx.note(kind=type(g).__name__, n=n, edges=E, sources=S, mode=mode)
    if judge(ctx, g, S, rejected, mode == 'single'):
        ctx.nontrivial(type(g).__name__, n, repr(E)[:2000], repr(S)[:200])
    ctx.ev("large graphs")


FAMILIES = [
    Fam("large", large, 600, 12000),
    Fam("exhaustive", exhaustive, (gen.num_digraphs(3) - 1) * 3, (gen.num_digraphs(3) - 1) * 3),
    Fam("rand", rand, 16000, 320000),
    Fam("view", view, 1600, 32000),
    Fam("quiet", quiet, 200, 2000),
    Fam("big", big, 32, 320),
]
