"""C25: views against the subgraph computed from the filters, over updates, combinations and traversals."""
import re
from collections import defaultdict

from pybgl.automaton import Automaton
from pybgl.breadth_first_search import DefaultBreadthFirstSearchVisitor, breadth_first_search_graph
from pybgl.depth_first_search import DefaultDepthFirstSearchVisitor, depth_first_search_graph
from pybgl.dijkstra_shortest_paths import dijkstra_shortest_paths
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.graph_view import GraphView
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_graph import IncidenceGraph
from pybgl.property_map import make_assoc_property_map, make_func_property_map
from pybgl.strong_components import strong_components

from .. import gen
from ..core import Fam

ANCHORS = ["graph_view.py"]
RULE = (
    "A case is a graph (or automaton), one or several views with vertex and edge filters, possibly combined by |, & and - or stacked, every query of the views being compared with the subgraph "
    "computed from the filters, again after updates of the graph and of the filters, and traversals of the views being compared with traversals of that subgraph. "
    "Non-trivial: the view hides and shows at least one edge; distinct by graph and filters."
)
REQUIRED = ["views", "union", "intersection", "difference", "view of a view", "updates followed", "edge hidden by its end", "edge hidden by its filter", "in-edges", "traversals",
            "undirected", "automata", "no filter", "dot", "difference with edge filters", "large graphs"]
ASSUMPTIONS = ["the edge filter of an undirected graph gives both descriptors of an edge the same value", "combined views are views of the same graph; the union of a difference with another view is not judged (its edge filter has no agreed meaning)"]


def key(g, e):
    u, v = g.source(e), g.target(e)
    if not getattr(g, "directed", True):
        u, v = min(u, v), max(u, v)
    return (u, v, getattr(e, "distinguisher", None))


class Sub:
    """The subgraph shown, from the filters: vok(u), eok(key)."""

    def __init__(self, g, vok, eok, minus=False):
        self.g, self.vok, self.eok, self.minus = g, vok, eok, minus

    def V(self):
        return [u for u in self.g.vertices() if self.vok(u)]

    def ok(self, e):
        g = self.g
        return bool(self.eok(key(g, e)) and self.vok(g.source(e)) and self.vok(g.target(e)))

    def E(self):
        return [e for e in self.g.edges() if self.ok(e)]


def filters(ctx, g):
    """Random mutable filters: (property maps for GraphView, vok, eok, kept sets)."""
    r = ctx.rng
    p = r.choice([0.0, 0.3, 0.7, 0.7, 1.0])
    q = r.choice([0.0, 0.3, 0.7, 0.7, 1.0])
    salt = r.random()
    vh = defaultdict(lambda: True, {u: r.random() < p for u in g.vertices()})
    eh = defaultdict(lambda: True, {key(g, e): r.random() < q for e in g.edges()})
    no_v, no_e = r.random() < 0.15, r.random() < 0.15
    vok = (lambda u: True) if no_v else (lambda u: vh[u])
    eok = (lambda k: True) if no_e else (lambda k: eh[k])
    pv = None if no_v else (make_assoc_property_map(vh) if r.random() < 0.4 else make_func_property_map(lambda u: vh[u]))
    pe = None if no_e else make_func_property_map(lambda e: eh[key(g, e)])
    if no_v and no_e:
        ctx.ev("no filter")
    return pv, pe, vok, eok, vh, eh


def make(ctx):
    r = ctx.rng
    if r.random() < 0.2:
        d = gen.dfa(r, n_max=7)
        A = r.choice([Automaton, IncidenceAutomaton])
        g, _ = gen.build_dfa(A, d, r, churn=r.random() < 0.3)
        ctx.note(automaton=d, cls=A.__name__)
        ctx.ev("automata")
        return g, hasattr(g, "in_edges") and A is IncidenceAutomaton
    G = r.choice([DirectedGraph, IncidenceGraph, UndirectedGraph])
    n, E = gen.digraph(r, n_max=r.choice([3, 6, 10]))
    g, _, _ = gen.build(G, n, E, r, churn=r.random() < 0.2 and G is not UndirectedGraph)
    ctx.note(cls=G.__name__, n=n, edges=E)
    if G is UndirectedGraph:
        ctx.ev("undirected")
    return g, G is not DirectedGraph


def graph_state(g):
    return (sorted(g.vertices()), sorted((key(g, e) + (g.label(e) if hasattr(g, "label") and hasattr(g, "delta") else None,) for e in g.edges()), key=repr))


def judge(ctx, gv, sub, has_in):
    g = sub.g
    before = graph_state(g)
    V, E = sub.V(), sub.E()
    ctx.note(shown_vertices=V, shown_edges=[key(g, e) for e in E])
    lv, le = list(gv.vertices()), list(gv.edges())
    ctx.eq(sorted(lv), sorted(V), "vertices()")
    ctx.eq(sorted(map(repr, le)), sorted(map(repr, E)), "edges()")
    ctx.expect(set(le) == set(E), "edges() gives descriptors unknown to the graph")
    ctx.eq((gv.num_vertices(), gv.num_edges()), (len(V), len(E)), "num_vertices(), num_edges()")
    for u in g.vertices():
        oe = [e for e in g.out_edges(u) if sub.ok(e)]
        got = list(gv.out_edges(u))
        ctx.eq(sorted(map(repr, got)), sorted(map(repr, oe)), "out_edges()", u=u)
        ctx.eq(gv.out_degree(u), len(oe), "out_degree()", u=u)
        if has_in:
            ie = [e for e in g.in_edges(u) if sub.ok(e)]
            ctx.eq(sorted(map(repr, gv.in_edges(u))), sorted(map(repr, ie)), "in_edges()", u=u)
            ctx.eq(gv.in_degree(u), len(ie), "in_degree()", u=u)
            ctx.ev("in-edges", len(ie))
    for e in le:
        ctx.eq((gv.source(e), gv.target(e)), (g.source(e), g.target(e)), "source() and target()")
    ctx.eq(graph_state(g), before, "the graph was altered by queries of a view")
    ctx.ev("views")
    for e in g.edges():
        if not sub.ok(e):
            ctx.ev("edge hidden by its filter" if not sub.eok(key(g, e)) else "edge hidden by its end")


def mutate(ctx, g, others):
    """Updates the graph or the filters."""
    r = ctx.rng
    aut = hasattr(g, "delta")
    for _ in range(r.randint(1, 4)):
        vs = list(g.vertices())
        m = r.choice(["av", "ae", "rv", "re", "filter"])
        if m == "av":
            u = g.add_vertex()
            others[0][0][u] = r.random() < 0.7
        elif m == "ae" and vs:
            u, v = r.choice(vs), r.choice(vs)
            e, added = g.add_edge(u, v, r.choice("abcdefg")) if aut else g.add_edge(u, v)
            if added:
                others[0][1][key(g, e)] = r.random() < 0.7
        elif m == "rv" and vs:
            g.remove_vertex(r.choice(vs))
        elif m == "re" and g.num_edges():
            g.remove_edge(r.choice(list(g.edges())))
        elif m == "filter":
            vh, eh = r.choice(others)
            for d in (vh, eh):
                for k in list(d):
                    if r.random() < 0.4:
                        d[k] = not d[k]


def rand(ctx):
    r = ctx.rng
    g, has_in = make(ctx)
    fs = [filters(ctx, g) for _ in range(r.choice([1, 2, 2, 3]))]
    views = [(GraphView(g, f[0], f[1]) if r.random() < 0.5 else GraphView(g, pmap_vrelevant=f[0], pmap_erelevant=f[1]), Sub(g, f[2], f[3])) for f in fs]
    log = []
    for _ in range(r.choice([0, 1, 2])):
        (a, sa), (b, sb) = r.choice(views), r.choice(views)
        op = r.choice("&-" if sa.minus or sb.minus else "|&-")
        log.append((op, views.index((a, sa)), views.index((b, sb))))
        views.append(combine(ctx, g, a, sa, b, sb, op))
    ctx.note(filters=[(dict(f[4]), dict(f[5]), f[0] is None, f[1] is None) for f in fs], combined=log)
    for gv, sub in views:
        judge(ctx, gv, sub, has_in)
    E, S = list(g.edges()), views[-1][1].E()
    if S and len(S) < len(E):
        ctx.nontrivial([key(g, e) for e in E], [key(g, e) for e in S], log)
    if r.random() < 0.4:
        mutate(ctx, g, [(f[4], f[5]) for f in fs])
        ctx.note(after_updates=graph_state(g))
        for gv, sub in views:
            judge(ctx, gv, sub, has_in)
        ctx.ev("updates followed")
    gv, sub = r.choice(views)
    if r.random() < 0.3:
        f = filters(ctx, g)
        g2 = GraphView(gv, f[0], f[1])
        s2 = Sub(g, lambda u, sub=sub: sub.vok(u) and f[2](u), lambda k, sub=sub: sub.eok(k) and f[3](k))
        judge(ctx, g2, s2, has_in)
        ctx.ev("view of a view")
        gv, sub = g2, s2
    if not hasattr(g, "delta"):
        traverse(ctx, g, gv, sub)
        if r.random() < 0.3:
            dot(ctx, g, gv, sub)
    ctx.sample(edges=[key(g, e) for e in g.edges()], shown=[key(g, e) for e in sub.E()], combined=log)


def combine(ctx, g, a, sa, b, sb, op):
    if op == "|":
        ctx.ev("union")
        return a | b, Sub(g, lambda u: sa.vok(u) or sb.vok(u), lambda k: sa.eok(k) or sb.eok(k))
    if op == "&":
        ctx.ev("intersection")
        return a & b, Sub(g, lambda u: sa.vok(u) and sb.vok(u), lambda k: sa.eok(k) and sb.eok(k), sa.minus or sb.minus)
    ctx.ev("difference")
    if any(not sa.eok(key(g, e)) for e in g.edges()):
        ctx.ev("difference with edge filters")
    # the vertices of the first that are not in the second, and the edges of the first between them
    return a - b, Sub(g, lambda u: sa.vok(u) and not sb.vok(u), lambda k: sa.eok(k), True)


def traverse(ctx, g, gv, sub):
    """Traversals of the view against the subgraph rebuilt on its own, through the correspondence of vertices."""
    r = ctx.rng
    V, E = sub.V(), sub.E()
    if not V:
        return
    s = r.choice(V)
    before = graph_state(g)
    arcs = [(g.source(e), g.target(e)) for e in E]
    if not g.directed:
        arcs += [(v, u) for u, v in arcs]
    reach = gen.closure(None, arcs, [s])

    class B(DefaultBreadthFirstSearchVisitor):
        def __init__(self): self.vs, self.es = [], []
        def discover_vertex(self, u, g): self.vs.append(u)
        def examine_edge(self, e, g): self.es.append(e)

    class D(DefaultDepthFirstSearchVisitor):
        def __init__(self): self.vs, self.es = [], []
        def discover_vertex(self, u, g): self.vs.append(u)
        def examine_edge(self, e, g): self.es.append(e)

    full = sorted(repr(e) for u in reach for e in g.out_edges(u) if sub.ok(e))
    b, d = B(), D()
    breadth_first_search_graph(gv, {s}, vis=b)
    depth_first_search_graph(gv, {s}, vis=d)
    for x, what in ((b, "breadth-first"), (d, "depth-first")):
        ctx.eq(sorted(x.vs), sorted(reach), f"vertices visited by {what} search on the view", s=s)
        ctx.eq(sorted(map(repr, x.es)), full, f"edges examined by {what} search on the view", s=s)
    d = D()
    depth_first_search_graph(gv, vis=d)
    ctx.eq(sorted(d.vs), sorted(V), "vertices visited by a complete depth-first search on the view")
    dist = defaultdict(int)
    dijkstra_shortest_paths(gv, s, make_func_property_map(lambda e: 1), make_assoc_property_map(defaultdict(set)), make_assoc_property_map(dist))
    ctx.eq({u for u, x in dist.items() if x < 10 ** 9}, reach, "vertices at finite distance on the view", s=s)
    ctx.eq(set(dist), set(V), "vertices given a distance on the view")
    if g.directed:
        comp = defaultdict(int)
        strong_components(gv, make_assoc_property_map(comp))
        R = {u: gen.closure(None, arcs, [u]) for u in V}
        ctx.eq(set(comp), set(V), "vertices given a component on the view")
        for u in V:
            for v in V:
                ctx.eq(comp[u] == comp[v], v in R[u] and u in R[v], "strong components of the view", u=u, v=v)
    ctx.eq(graph_state(g), before, "the graph was altered by a traversal of a view")
    ctx.ev("traversals")


def dot(ctx, g, gv, sub):
    """The DOT text of a view lists what it shows (and what the caller restricts it to)."""
    r = ctx.rng
    V, E = sub.V(), sub.E()
    kw = {}
    if r.random() < 0.4:
        kw["vs"] = {u for u in g.vertices() if r.random() < 0.6}
        E = [e for e in E if g.source(e) in kw["vs"] and g.target(e) in kw["vs"]]
        kw["es"] = {e for e in g.edges() if g.source(e) in kw["vs"] and g.target(e) in kw["vs"]}
        V = [u for u in V if u in kw["vs"]]
    if r.random() < 0.4:
        kw["es"] = {e for e in kw.get("es", set(g.edges())) if r.random() < 0.6}
        E = [e for e in E if e in kw["es"]]
    ctx.note(to_dot=kw)
    s = gv.to_dot(**kw)
    got = sorted(int(x) for x in re.findall(r"^\s*(\d+)\s*(?:\[.*)?;?$", s, re.M))
    ctx.eq(got, sorted(V), "vertices in the DOT text of a view", dot=s)
    got = sorted((int(a), int(b)) for a, b in re.findall(r"^\s*(\d+)\s*-[->]\s*(\d+)", s, re.M))
    ctx.eq(got, sorted((g.source(e), g.target(e)) for e in E), "edges in the DOT text of a view", dot=s)
    ctx.ev("dot")


def large(ctx):
    """Many vertices, high degrees, many parallel edges; many views combined."""
    r = ctx.rng
    n, E = gen.big_digraph(r, scale=r.choice([0.2, 0.5, 1]))
    G = r.choice([DirectedGraph, IncidenceGraph, UndirectedGraph])
    g, _, _ = gen.build(G, n, E, r, churn=r.random() < 0.2 and G is not UndirectedGraph)
    ctx.note(cls=G.__name__, n=n, edges=E)
    views = []
    for _ in range(r.choice([1, 2, 6])):
        f = filters(ctx, g)
        views.append((GraphView(g, f[0], f[1]), Sub(g, f[2], f[3])))
    for _ in range(r.choice([0, 1, 5])):
        (a, sa), (b, sb) = r.choice(views), r.choice(views[-2:])
        views.append(combine(ctx, g, a, sa, b, sb, r.choice("&-" if sa.minus or sb.minus else "||&-")))
    gv, sub = views[-1]
    judge(ctx, gv, sub, G is not DirectedGraph)
    if r.random() < 0.3:
        judge(ctx, *views[0], G is not DirectedGraph)
    if n < 120:
        traverse(ctx, g, gv, sub)
    ctx.ev("large graphs")
    ctx.nontrivial(n, repr(E)[:1000], len(views))


FAMILIES = [
    Fam("large", large, 480, 10000),
    Fam("rand", rand, 20000, 400000)]
