"""C02: in_edges / out_edges duality after any history, and reverse_graph."""
from collections import Counter

from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_graph import IncidenceGraph
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
from pybgl.reverse import reverse_graph, reverse_dict
from pybgl import graph as G

from ..astore import Store
from ..core import Fam
from .. import astore, gen

ANCHORS = ["incidence_graph.py", "incidence_automaton.py", "incidence_node_automaton.py", "reverse.py"]
RULE = (
    "A case is a history of updates on IncidenceGraph, IncidenceAutomaton or IncidenceNodeAutomaton with its model, in-edges, out-edges and "
    "degrees compared after every operation, and reversed (once, twice) at random points. Exhaustive family: all digraphs up to 3 vertices, with one vertex or edge removed. "
    "Non-trivial: at least two edges and one removal or reversal; distinct by operation sequence."
)
REQUIRED = ["in-edge sets compared", "reversals", "op remove_vertex", "op remove_edge", "large graphs"]
ASSUMPTIONS = ["no update is made while the graph is reversed"]


def check_reverse(ctx, g, labelled):
    """Reverse and reverse back, comparing every query."""
    def edges():
        return Counter((g.source(e), g.target(e)) + ((g.label(e),) if labelled else ()) for e in g.edges())

    vs = sorted(g.vertices())
    before = edges()
    ins = {u: Counter((g.source(e), g.target(e)) for e in g.in_edges(u)) for u in vs}
    outs = {u: Counter((g.source(e), g.target(e)) for e in g.out_edges(u)) for u in vs}
    descs = set(g.edges())
    reverse_graph(g)
    ctx.ev("reversals")
    ctx.eq(sorted(g.vertices()), vs, "reversing changed the vertices")
    flipped = Counter({(k[1], k[0]) + k[2:]: n for k, n in before.items()})
    ctx.eq(edges(), flipped, "reversing must flip every edge")
    ctx.eq(g.num_edges(), sum(before.values()), "reversing changed the number of edges")
    for u in vs:
        ctx.eq(Counter((g.target(e), g.source(e)) for e in g.in_edges(u)), outs[u], "in-edges of the reversed graph", u=u)
        ctx.eq(Counter((g.target(e), g.source(e)) for e in g.out_edges(u)), ins[u], "out-edges of the reversed graph", u=u)
        ctx.expect(set(g.out_edges(u)) <= descs, "out-edges of the reversed graph are not its edges", u=u)
        ctx.eq(g.out_degree(u), sum(ins[u].values()), "out-degree of the reversed graph", u=u)
        ctx.eq(g.in_degree(u), sum(outs[u].values()), "in-degree of the reversed graph", u=u)
        ctx.eq(sorted(G.source(e, g) for e in G.in_edges(u, g)), sorted(k[1] for k, n in outs[u].items() for _ in range(n)), "wrappers on the reversed graph", u=u)
    reverse_graph(g)
    ctx.eq(edges(), before, "reversing twice must restore the edges")
    for u in vs:
        ctx.eq(Counter((g.source(e), g.target(e)) for e in g.in_edges(u)), ins[u], "in-edges after reversing twice", u=u)
        ctx.eq(Counter((g.source(e), g.target(e)) for e in g.out_edges(u)), outs[u], "out-edges after reversing twice", u=u)


def check_graph(ctx, g, vs, es):
    """es: {descriptor: (u, v)}"""
    ctx.eq(sorted(g.vertices()), sorted(vs), "vertices()")
    ctx.eq({e: (g.source(e), g.target(e)) for e in g.edges()}, es, "edges()")
    for u in vs:
        inn, out = list(g.in_edges(u)), list(g.out_edges(u))
        ctx.eq(Counter(inn), Counter(e for e, uv in es.items() if uv[1] == u), "in_edges()", u=u)
        ctx.eq(Counter(out), Counter(e for e, uv in es.items() if uv[0] == u), "out_edges()", u=u)
        ctx.eq(g.in_degree(u), len(inn), "in_degree()", u=u)
        ctx.eq(G.in_degree(u, g), len(inn), "in_degree(u, g)", u=u)
        ctx.eq(g.out_degree(u), len(out), "out_degree()", u=u)
        ctx.ev("in-edge sets compared")


def graph_history(ctx):
    r = ctx.rng
    n0 = r.choice([0, 1, 2])
    g = IncidenceGraph(n0) if n0 else IncidenceGraph()
    vs, es, ops = list(g.vertices()), {}, []
    ctx.note(ops=ops, n0=n0)
    cap = r.choice([2, 3, 5])
    rem = 0
    for _ in range(r.choice([15, 40])):
        x = r.random()
        if not vs or (x < 0.15 and len(vs) < cap):
            vs.append(g.add_vertex())
            ops.append("av")
        elif x < 0.6:
            u, v = r.choice(vs), r.choice(vs)
            if es and r.random() < 0.4:
                u, v = r.choice(sorted(es.values()))
            e, ok = g.add_edge(u, v)
            ctx.expect(ok and e not in es, "add_edge() returned a present descriptor", e=e)
            es[e] = (u, v)
            ops.append(("ae", u, v))
        elif x < 0.85 and es:
            e = r.choice(sorted(es))
            u, v = es.pop(e)
            d = e if r.random() < 0.5 else next(d for d in g.in_edges(v) if d == e)
            g.remove_edge(d)
            ops.append(("re", u, v))
            ctx.ev("op remove_edge")
            rem += 1
        elif x < 0.93:
            u = r.choice(vs)
            g.remove_vertex(u)
            vs.remove(u)
            es = {e: uv for e, uv in es.items() if u not in uv}
            ops.append(("rv", u))
            ctx.ev("op remove_vertex")
            rem += 1
        elif x < 0.95:
            g.clear()
            vs, es = [], {}
            ops.append("cl")
        else:
            ops.append("rev")
            check_reverse(ctx, g, False)
            rem += 1
        check_graph(ctx, g, vs, es)
    check_reverse(ctx, g, False)
    check_graph(ctx, g, vs, es)
    if rem and len(es) >= 2:
        ctx.nontrivial(repr(ops))
    ctx.sample(ops=ops)


def automaton_history(ctx):
    r = ctx.rng
    C = [IncidenceAutomaton, IncidenceNodeAutomaton][ctx.i % 2]
    s = Store(ctx, C, r.choice(gen.ALPHABETS), r.choice([2, 3, 5]))
    ctx.note(cls=C.__name__, ops=s.ops)
    for _ in range(r.choice([15, 40])):
        s.step(r)
        s.check(full=False)
        s.check_incidence()
        if r.random() < 0.08:
            s.ops.append("rev")
            check_reverse(ctx, s.g, C is IncidenceAutomaton)
            s.check_incidence()
    check_reverse(ctx, s.g, C is IncidenceAutomaton)
    s.check(full=False)
    s.check_incidence()
    if s.removed and len(s.edges()) >= 2:
        ctx.nontrivial(C.__name__, repr(s.ops))
    ctx.sample(cls=C.__name__, ops=s.ops)


def exhaustive(ctx):
    n, E = gen.nth_digraph(ctx.i, 3)
    for k in range(-1, n + len(E)):
        g, ids, es = gen.build(IncidenceGraph, n, E)
        m = dict(zip(es, E))
        vs = list(ids)
        if 0 <= k < n:
            g.remove_vertex(ids[k])
            vs.remove(ids[k])
            m = {e: uv for e, uv in m.items() if ids[k] not in uv}
            ctx.ev("op remove_vertex")
        elif k >= n:
            g.remove_edge(es[k - n])
            del m[es[k - n]]
            ctx.ev("op remove_edge")
        ctx.note(n=n, E=E, removed=k)
        check_graph(ctx, g, vs, m)
        check_reverse(ctx, g, False)
    if len(E) >= 2:
        ctx.nontrivial(n, repr(E))


def big(ctx):
    """Large graphs, high degrees, many parallel edges: checked after the construction, and after removals."""
    r = ctx.rng
    n, E = gen.big_digraph(r)
    g, ids, es = gen.build(IncidenceGraph, n, E, r, churn=True)
    m = {e: (ids[u], ids[v]) for e, (u, v) in zip(es, E)}
    vs = list(ids)
    ctx.note(n=n, edges=len(E))
    check_large(ctx, g, vs, m)
    for _ in range(r.choice([1, 10, 60])):
        if r.random() < 0.25 and vs:
            deg = Counter(u for uv in m.values() for u in uv)
            u = deg.most_common(1)[0][0] if deg and r.random() < 0.2 else r.choice(vs)
            g.remove_vertex(u)
            vs.remove(u)
            m = {e: uv for e, uv in m.items() if u not in uv}
            ctx.ev("op remove_vertex")
        elif m:
            e = r.choice(sorted(m))
            g.remove_edge(e)
            del m[e]
            ctx.ev("op remove_edge")
        if vs and r.random() < 0.5:
            u, v = r.choice(vs), r.choice(vs)
            m[g.add_edge(u, v)[0]] = (u, v)
    check_large(ctx, g, vs, m)
    reverse_graph(g)
    ctx.eq(Counter((g.source(e), g.target(e)) for e in g.edges()), Counter((v, u) for u, v in m.values()), "edges of a large graph reversed")
    ctx.ev("reversals")
    reverse_graph(g)
    check_large(ctx, g, vs, m)
    ctx.ev("large graphs")
    ctx.nontrivial(n, repr(E)[:200], len(E))


def check_large(ctx, g, vs, m):
    ctx.eq(sorted(g.vertices()), sorted(vs), "vertices()")
    ctx.eq({e: (g.source(e), g.target(e)) for e in g.edges()}, m, "edges()")
    inn, out = {u: [] for u in vs}, {u: [] for u in vs}
    for e, (u, v) in m.items():
        inn[v].append(e)
        out[u].append(e)
    for u in vs:
        ctx.eq(sorted(g.in_edges(u)), sorted(inn[u]), "in_edges()", u=u)
        ctx.eq(sorted(g.out_edges(u)), sorted(out[u]), "out_edges()", u=u)
        ctx.eq((g.in_degree(u), g.out_degree(u)), (len(inn[u]), len(out[u])), "in-degree and out-degree", u=u)
    ctx.ev("in-edge sets compared", len(vs))


def big_automaton(ctx):
    r = ctx.rng
    s = astore.grown(ctx, [IncidenceAutomaton, IncidenceNodeAutomaton][ctx.i % 2])
    s.check_incidence()
    s.shrink(r)
    s.check(full=False)
    s.check_incidence()
    labelled = ctx.i % 2 == 0
    want = Counter((v, u) + ((a,) if labelled else ()) for u, v, a in s.edges())
    reverse_graph(s.g)
    ctx.eq(Counter((s.g.source(e), s.g.target(e)) + ((s.g.label(e),) if labelled else ()) for e in s.g.edges()), want, "edges of a large automaton reversed")
    ctx.ev("reversals")
    reverse_graph(s.g)
    s.check_incidence()
    ctx.ev("large graphs")
    ctx.nontrivial(len(s.vs), len(want), ctx.i)


def rdict(ctx):
    r = ctx.rng
    d = {k: r.randrange(8) for k in range(r.randint(0, 8))}
    x = reverse_dict(dict(d))
    ctx.eq(set(x), set(d.values()), "reverse_dict() keys", d=d)
    for v, k in x.items():
        ctx.eq(d[k], v, "reverse_dict() pair", d=d)


FAMILIES = [
    Fam("exhaustive", exhaustive, gen.num_digraphs(3), gen.num_digraphs(3)),
    Fam("graph", graph_history, 10000, 240000),
    Fam("automaton", automaton_history, 10000, 240000),
    Fam("big", big, 800, 16000),
    Fam("big_automaton", big_automaton, 240, 4800),
    Fam("reverse_dict", rdict, 200, 2000),
]
