"""C26: extraction and copies against reachability through the accepted elements."""
from collections import Counter, defaultdict

from pybgl.automaton import Automaton
from pybgl.automaton_copy import automaton_copy
from pybgl.graph import DirectedGraph
from pybgl.graph_copy import graph_copy
from pybgl.graph_extract import graph_extract
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_graph import IncidenceGraph
from pybgl.nfa import Nfa
from pybgl.property_map import make_assoc_property_map, make_func_property_map

from .. import gen
from ..core import Fam

ANCHORS = ["graph_extract.py", "graph_copy.py", "automaton_copy.py"]
RULE = (
    "A case is a directed graph (DirectedGraph, IncidenceGraph) or an automaton (deterministic or not), a source and vertex and edge filters; the elements reported by graph_extract, and the graph, maps and "
    "callbacks produced by graph_copy or automaton_copy are compared with the part reachable through accepted elements. Non-trivial: at least 2 edges kept and one left out; distinct by graph, source and filters."
)
REQUIRED = ["graph_extract", "graph_copy", "automaton_copy", "edges kept", "edges refused", "vertices refused", "no filter", "maps given", "no map", "loops", "parallel edges",
            "nondeterministic automata", "callbacks", "beyond the recursion limit", "from a view", "large graphs"]
ASSUMPTIONS = ["the source is accepted by the vertex filter", "the graph is directed; the automaton is labelled on its transitions", "the graph receiving the copy is empty"]


def filters(ctx, V, E, s):
    r = ctx.rng
    p, q = r.choice([0.5, 0.8, 1.0]), r.choice([0.5, 0.8, 1.0])
    vok = {u: u == s or r.random() < p for u in V}
    eok = {e: r.random() < q for e in E}
    kw = {}
    if r.random() < 0.75:
        kw["pmap_vrelevant"] = make_func_property_map(lambda u: vok[u]) if r.random() < 0.5 else make_assoc_property_map(defaultdict(bool, vok))
    else:
        vok = {u: True for u in V}
    if r.random() < 0.75:
        kw["pmap_erelevant"] = make_func_property_map(lambda e: eok[e]) if r.random() < 0.5 else make_assoc_property_map(defaultdict(bool, eok))
    else:
        eok = {e: True for e in E}
    if not kw:
        ctx.ev("no filter")
    return vok, eok, kw


def part(g, s, vok, eok, E):
    keep = [e for e in E if eok[e] and vok[g.target(e)] and (g.source(e) == s or vok[g.source(e)])]
    R = gen.closure(None, [(g.source(e), g.target(e)) for e in keep], [s])
    return R, [e for e in keep if g.source(e) in R]


def lab(g, e):
    return g.label(e) if hasattr(g, "delta") else None


def state(g):
    s = (sorted(g.vertices()), sorted((repr((g.source(e), g.target(e), lab(g, e))) for e in g.edges())), g.num_edges())
    if hasattr(g, "delta"):
        s += (sorted(map(repr, (q for q in g.vertices() if g.is_final(q)))), sorted(q for q in g.vertices() if g.is_initial(q)))
    return s


def make(ctx):
    r = ctx.rng
    k = r.random()
    if k < 0.55:
        n, E = gen.digraph(r, n_max=r.choice([3, 6, 10]), n_min=1)
        G = r.choice([DirectedGraph, IncidenceGraph])
        g, ids, es = gen.build(G, n, E, r, churn=r.random() < 0.3)
        D = r.choice([DirectedGraph, IncidenceGraph])
    elif k < 0.8:
        d = gen.dfa(r, n_max=7)
        g, ids = gen.build_dfa(r.choice([Automaton, IncidenceAutomaton]), d, r, churn=r.random() < 0.3)
        D = r.choice([Automaton, IncidenceAutomaton])
    else:
        g = Nfa()
        for _ in range(r.randint(1, 6)):
            g.add_vertex()
        vs = list(g.vertices())
        for _ in range(r.randint(0, 12)):
            g.add_edge(r.choice(vs), r.choice(vs), r.choice(["a", "b", "c", "ε"]))
        g.set_initials({r.choice(vs)}) if hasattr(g, "set_initials") else None
        for q in vs:
            if r.random() < 0.3:
                g.set_final(q)
        D = Nfa
        ctx.ev("nondeterministic automata")
    return g, D


def judge(ctx, g, D, big=False):
    r = ctx.rng
    V, E = list(g.vertices()), list(g.edges())
    s = r.choice(V) if not big else V[0]
    vok, eok, kw = filters(ctx, V, E, s) if not big else ({u: True for u in V}, {e: True for e in E}, {})
    R, K = part(g, s, vok, eok, E)
    if not big:
        ctx.note(cls=type(g).__name__, copy_cls=D.__name__, vertices=V, edges=[(g.source(e), g.target(e), lab(g, e)) for e in E], s=s,
                 refused_vertices=[u for u in V if not vok[u]], refused_edges=[(g.source(e), g.target(e), lab(g, e)) for e in E if not eok[e]])
    before = state(g)
    # extraction
    vs, es = [], []

    def cv(u, h):
        ctx.expect(h is g, "callback given another graph")
        vs.append(u)

    def ce(e, h):
        ctx.expect(h is g, "callback given another graph")
        ctx.expect(g.source(e) in vs, "an edge is reported before its source")
        es.append(e)

    graph_extract(s, g, callback_vertex_extract=cv, callback_edge_extract=ce, **kw)
    ctx.eq(sorted(vs), sorted(R), "graph_extract: vertices reported")
    ctx.eq(Counter(es), Counter(K), "graph_extract: edges reported")
    if r.random() < 0.2:
        graph_extract(s, g, **kw)
    ctx.eq(state(g), before, "graph_extract altered the graph")
    ctx.ev("graph_extract")
    # copy
    aut = hasattr(g, "delta")
    copy = automaton_copy if aut else graph_copy
    h = D()
    mv, me = {}, {}
    dv, de = defaultdict(int), defaultdict(int)
    seen = set()

    def dup_v(u, a, u2, b):
        ctx.expect(a is g and b is h, "callback given other graphs")
        ctx.expect(u not in mv, "a vertex is copied twice", u=u)
        ctx.expect(u2 in set(h.vertices()) if not big else True, "callback given a vertex unknown to the copy")
        mv[u] = u2

    def dup_e(e, a, e2, b):
        ctx.expect(a is g and b is h, "callback given other graphs")
        ctx.expect(e not in me, "an edge is copied twice", e=e)
        me[e] = e2

    maps = r.random() < 0.6
    calls = r.random() < 0.7
    k2 = dict(kw)
    if maps:
        k2.update(pmap_vertices=make_assoc_property_map(dv), pmap_edges=make_assoc_property_map(de))
    if calls:
        k2.update(callback_dup_vertex=dup_v, callback_dup_edge=dup_e)
    ctx.ev("maps given" if maps else "no map")
    copy(s, g, h, **k2)
    ctx.ev(copy.__name__)
    ctx.eq(state(g), before, "copying altered the original")
    HV, HE = list(h.vertices()), list(h.edges())
    ctx.note(copy_vertices=HV if not big else len(HV), copy_edges=[(h.source(e), h.target(e), lab(h, e)) for e in HE] if not big else len(HE))
    ctx.eq((len(HV), len(HE), h.num_vertices(), h.num_edges()), (len(R), len(K), len(R), len(K)), "size of the copy")
    for on, fv, fe, what in ((maps, dict(dv), dict(de), "maps"), (calls, mv, me, "callbacks")):
        if not on:
            continue
        ctx.eq(set(fv), R, f"vertices in the {what}")
        ctx.eq(set(fe), set(K), f"edges in the {what}")
        ctx.eq(sorted(fv.values()), sorted(HV), f"images of the vertices in the {what}")
        ctx.expect(len(set(fe.values())) == len(fe) and set(fe.values()) == set(HE), f"images of the edges in the {what}", images=fe)
        for e, e2 in fe.items():
            ctx.eq((h.source(e2), h.target(e2), lab(h, e2)), (fv[g.source(e)], fv[g.target(e)], lab(g, e)), f"ends and label of the copied edge in the {what}", edge=(g.source(e), g.target(e)))
    if calls:
        ctx.ev("callbacks")
    if not maps and not calls and not big and len(V) <= 30:
        from ..iso import isomorphism
        ctx.expect(isomorphism(sorted(R), [(g.source(e), g.target(e), lab(g, e)) for e in K], sorted(HV), [(h.source(e), h.target(e), lab(h, e)) for e in HE]) is not None,
                   "the copy is not isomorphic to the part reachable")
    ctx.ev("edges kept", len(K))
    ctx.ev("edges refused", sum(not x for x in eok.values()))
    ctx.ev("vertices refused", sum(not x for x in vok.values()))
    ctx.ev("loops", sum(g.source(e) == g.target(e) for e in K))
    ctx.ev("parallel edges", len(K) - len({(g.source(e), g.target(e)) for e in K}))
    if len(K) >= 2 and len(K) < len(E):
        ctx.nontrivial([(g.source(e), g.target(e), repr(lab(g, e)), eok[e]) for e in E], sorted(R), s)
    ctx.sample(edges=[(g.source(e), g.target(e), lab(g, e)) for e in E][:12], s=s, kept=[(g.source(e), g.target(e)) for e in K][:12])


def rand(ctx):
    g, D = make(ctx)
    judge(ctx, g, D)


def views(ctx):
    """From a view: the part reachable in the view."""
    from pybgl.graph_view import GraphView
    r = ctx.rng
    n, E = gen.digraph(r, n_max=8, n_min=1)
    g, ids, es = gen.build(DirectedGraph, n, E)
    s = r.choice(ids)
    vok = {u: u == s or r.random() < 0.8 for u in ids}
    eok = {e: r.random() < 0.8 for e in es}
    R, K = part(g, s, vok, eok, es)
    ctx.note(n=n, edges=E, s=s, refused_vertices=[u for u in ids if not vok[u]], refused_edges=[k for k, e in zip(E, es) if not eok[e]])
    gv = GraphView(g, make_func_property_map(lambda u: vok[u]), make_func_property_map(lambda e: eok[e]))
    h = DirectedGraph()
    fv, fe = defaultdict(int), defaultdict(int)
    graph_copy(s, gv, h, pmap_vertices=make_assoc_property_map(fv), pmap_edges=make_assoc_property_map(fe))
    ctx.eq(set(fv), R, "vertices copied from a view")
    ctx.eq(set(fe), set(K), "edges copied from a view")
    for e, e2 in fe.items():
        ctx.eq((h.source(e2), h.target(e2)), (fv[g.source(e)], fv[g.target(e)]), "ends of a copied edge")
    ctx.eq((h.num_vertices(), h.num_edges()), (len(R), len(K)), "size of the copy")
    ctx.ev("from a view")


def deep(ctx):
    n = ctx.rng.randint(2500, 3500)
    if ctx.i % 2:
        g, _, _ = gen.build(DirectedGraph, n, [(k, k + 1) for k in range(n - 1)] + [(k, 0) for k in range(0, n, 7)])
        judge(ctx, g, DirectedGraph, big=True)
    else:
        g = Automaton(n)
        for k in range(n - 1):
            g.add_edge(k, k + 1, "a")
        judge(ctx, g, Automaton, big=True)
    ctx.ev("beyond the recursion limit")


def large(ctx):
    """Many vertices, high degrees, many parallel edges, many labels; vertices beyond the small integers."""
    r = ctx.rng
    if r.random() < 0.5:
        n, E = gen.big_digraph(r, scale=r.choice([0.3, 1]))
        g, _, _ = gen.build(r.choice([DirectedGraph, IncidenceGraph]), n, E, r, churn=r.random() < 0.3)
        D = r.choice([DirectedGraph, IncidenceGraph])
    else:
        g, _ = gen.build_dfa(r.choice([Automaton, IncidenceAutomaton]), gen.big_dfa(r, scale=r.choice([0.3, 1])), r, churn=r.random() < 0.3)
        D = r.choice([Automaton, IncidenceAutomaton])
    judge(ctx, g, D)
    ctx.ev("large graphs")


FAMILIES = [
    Fam("large", large, 400, 8000),
    Fam("rand", rand, 20000, 400000),
    Fam("views", views, 3200, 48000),
    Fam("deep", deep, 8, 40),
]
