"""C01: lock-step of DirectedGraph / UndirectedGraph / IncidenceGraph with a multigraph model."""
from collections import Counter

import pybgl
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.incidence_graph import IncidenceGraph
from pybgl import graph as G

from .. import gen
from ..core import Fam

ANCHORS = ["graph.py", "incidence_graph.py"]
RULE = (
    "A case is a history of add/remove vertex/edge and clear operations run on the graph and on a multigraph model; "
    "every query is compared after every operation. Exhaustive family: every sequence of 4 operations over 10 on a 2-vertex graph. "
    "Non-trivial: the history removed something and held parallel edges or a loop; distinct by operation sequence."
)
REQUIRED = ["op add_vertex", "op add_edge", "op remove_edge", "op remove_vertex", "op clear",
            "parallel edges seen", "loops seen", "undirected removal by opposite end", "clear of more than 8 vertices", "identifiers above 256", "many parallel edges", "more than 256 parallel edges", "vertex of high degree"]
ASSUMPTIONS = ["operations are applied to vertices and edges that are present"]


class Model:
    def __init__(self, directed):
        self.directed = directed
        self.vs = []
        self.es = {}  # descriptor -> (u, v)

    def norm(self, u, v):
        return (u, v) if self.directed else (min(u, v), max(u, v))


def check_state(ctx, g, m, deep=True):
    """Every query of the graph against the model; deep: the vertices between which edge(u, v) is asked (True: all)."""
    vs = list(g.vertices())
    ctx.expect(list(G.vertices(g)) == vs and G.has_vertex(g) == bool(m.vs), "vertices(g), has_vertex(g)", vs=vs)
    ctx.eq(sorted(vs), sorted(m.vs), "vertices() differ from the history")
    ctx.eq(g.num_vertices(), len(m.vs), "num_vertices()")
    ctx.eq(G.num_vertices(g), len(m.vs), "num_vertices(g)")
    es = list(g.edges())
    ctx.eq(len(es), len(m.es), "number of edges listed by edges()", edges=es, model=m.es)
    ctx.eq(set(es), set(m.es), "edges() differ from the history")
    ctx.eq(len(set(es)), len(es), "an edge is listed twice or two edges are equal")
    ctx.eq(g.num_edges(), len(m.es), "num_edges()")
    ctx.eq(g.has_vertex(), bool(m.vs), "has_vertex()")
    ctx.eq(g.has_edge(), bool(m.es), "has_edge()")
    ctx.expect(list(G.edges(g)) == es and G.num_edges(g) == len(es) and G.has_edge(g) == bool(es), "edges(g), num_edges(g), has_edge(g)", es=es)
    for e in es:
        ctx.eq((g.source(e), g.target(e)), m.es[e], "ends of an edge", e=e)
        ctx.eq((G.source(e, g), G.target(e, g)), m.es[e], "source(e, g), target(e, g)", e=e)
        ctx.eq((str(e), repr(e)), ("(%s -> %s)" % m.es[e],) * 2, "string of an edge")
    adj = {u: [] for u in m.vs}
    mult = Counter()
    for e, (u, v) in m.es.items():
        mult[(u, v)] += 1
        adj[u].append((u, v))
        if not m.directed and u != v:
            adj[v].append((v, u))
    if any(k > 1 for k in mult.values()):
        ctx.ev("parallel edges seen")
    if any(u == v for u, v in mult):
        ctx.ev("loops seen")
    for u in m.vs:
        out = list(g.out_edges(u))
        ctx.eq(sorted((g.source(e), g.target(e)) for e in out), sorted(adj[u]), "out_edges()", u=u)
        ctx.eq(len(set(out)), len(out), "out_edges() lists an edge twice", u=u)
        if m.directed:
            ctx.expect(set(out) <= set(m.es), "out_edges() lists an unknown edge", u=u, out=out)
        ctx.eq(list(G.out_edges(u, g)), out, "out_edges(u, g)", u=u)
        ctx.eq(g.out_degree(u), len(out), "out_degree()", u=u)
        ctx.eq(G.out_degree(u, g), len(out), "out_degree(u, g)", u=u)
        if not m.directed:
            ctx.eq(sorted((g.source(e), g.target(e)) for e in g.in_edges(u)), sorted(adj[u]), "in_edges() of an undirected graph", u=u)
            ctx.eq(g.in_degree(u), len(out), "in_degree() of an undirected graph", u=u)
            ctx.expect(list(G.in_edges(u, g)) == list(g.in_edges(u)) and G.in_degree(u, g) == len(out), "in_edges(u, g), in_degree(u, g)", u=u)
    if deep:
        dv = m.vs if deep is True else [u for u in deep if u in m.vs]
        for u in dv:
            for v in dv:
                k = mult[m.norm(u, v)]
                e, found = g.edge(gen.fresh(u), gen.fresh(v))
                ctx.eq(G.edge(u, v, g), (e, found), "edge(u, v, g)", u=u, v=v)
                ctx.eq(found, k == 1, "edge(u, v) must be found exactly when one edge joins u to v", u=u, v=v, number=k)
                if found:
                    ends = (g.source(e), g.target(e))
                    ctx.eq(ends, (u, v), "edge(u, v) returned another edge", u=u, v=v)
                    ctx.expect(e in set(g.out_edges(u)), "edge(u, v) is not an out-edge", u=u, v=v)
                else:
                    ctx.expect(e is None, "edge(u, v) not found must be None", e=e)
    s = sorted(es)
    for a, b in zip(s, s[1:]):
        ctx.expect(a < b and not b < a and a != b, "edge descriptors are not strictly ordered", a=a, b=b)
        ctx.expect(m.es[a] <= m.es[b], "edge descriptors are not ordered by source, then target", a=a, b=b)
    for e in es[:3]:
        ctx.expect(not (e < e) and e == e and not (e == None), "descriptor order/equality", e=e)  # noqa: E711


def apply(ctx, g, m, op, arg, removed):
    if ctx.rng.random() < 0.3:  # equal arguments, but other objects
        arg = tuple(gen.fresh(x) for x in arg) if type(arg) is tuple else gen.fresh(arg)
    if op == "av":
        u = g.add_vertex() if arg else G.add_vertex(g)
        ctx.expect(u not in m.vs, "add_vertex() returned the identifier of a vertex still present", u=u, vs=m.vs)
        m.vs.append(u)
        ctx.ev("op add_vertex")
    elif op == "ae":
        u, v, fun = arg
        e, ok = G.add_edge(u, v, g) if fun else g.add_edge(u, v)
        ctx.expect(ok is True and e is not None, "add_edge() refused an edge", u=u, v=v)
        ctx.expect(e not in m.es, "add_edge() returned a descriptor equal to a present edge", e=e)
        m.es[e] = m.norm(u, v)
        ctx.ev("op add_edge")
    elif op == "re":
        e, how = arg
        u, v = m.es[e]
        if m.directed or how == 0:
            (G.remove_edge(e, g) if how else g.remove_edge(e))
            del m.es[e]
        else:
            # remove through an out-edge descriptor of one of the two ends
            x, y = (u, v) if how == 1 else (v, u)
            d = next(d for d in g.out_edges(x) if g.target(d) == y)
            if x > y:
                ctx.ev("undirected removal by opposite end")
            before = set(g.edges())
            g.remove_edge(d)
            after = set(g.edges())
            gone = before - after
            ctx.expect(len(gone) == 1 and not after - before, "removing one edge must remove exactly one edge", gone=gone, added=after - before)
            f = gone.pop()
            ctx.eq(m.es.get(f), (u, v), "removing an edge removed an edge between other vertices", d=d)
            del m.es[f]
        removed.append(1)
        ctx.ev("op remove_edge")
    elif op == "rv":
        (G.remove_vertex(arg, g) if arg % 2 else g.remove_vertex(arg))
        m.vs.remove(arg)
        m.es = {e: uv for e, uv in m.es.items() if arg not in uv}
        removed.append(1)
        ctx.ev("op remove_vertex")
    elif op == "cl":
        g.clear()
        m.vs.clear()
        m.es.clear()
        removed.append(1)
        ctx.ev("op clear")


CLASSES = [DirectedGraph, UndirectedGraph, IncidenceGraph]


def history(ctx):
    r = ctx.rng
    C = CLASSES[ctx.i % 3]
    directed = C is not UndirectedGraph
    n0 = r.choice([0, 0, 1, 2, 3, 3, 5, 9, 13, 17])
    g = C(n0) if n0 or r.random() < 0.5 else C()
    m = Model(directed)
    m.vs = list(g.vertices())
    ctx.eq(sorted(m.vs), list(range(n0)), "a new graph of n vertices has the vertices 0 to n - 1")
    ctx.eq(G.is_directed(g), directed, "is_directed()")
    ops = []
    removed = []
    cap = max(r.choice([2, 3, 4, 6]), n0 + 1)
    length = r.choice([12, 30, 60]) if cap < 8 else r.choice([10, 20, 40])
    pclear = r.choice([0.015, 0.015, 0.08])
    deep = True if cap < 8 else r.sample(range(cap), 4)
    ctx.note(cls=C.__name__, n0=n0, ops=ops)
    check_state(ctx, g, m)
    par = loop = False
    for _ in range(length):
        x = r.random()
        if not m.vs or (x < 0.15 and len(m.vs) < cap):
            op, arg = "av", r.random() < 0.5
        elif x < 0.6 or (not m.es and x < 0.85):
            if m.es and r.random() < 0.3:
                u, v = r.choice(sorted(m.es.values()))
            else:
                u, v = r.choice(m.vs), r.choice(m.vs)
            op, arg = "ae", (u, v, r.random() < 0.5)
        elif x < 0.9:
            op, arg = ("re", (r.choice(sorted(m.es)), r.randrange(3))) if m.es else ("av", True)
        elif x < 1 - pclear:
            op, arg = "rv", r.choice(m.vs)
        else:
            op, arg = "cl", None
        ops.append((op, arg))
        if op == "cl" and len(m.vs) > 8:
            ctx.ev("clear of more than 8 vertices")
        apply(ctx, g, m, op, arg, removed)
        check_state(ctx, g, m, deep)
        c = Counter(m.es.values())
        par = par or any(k > 1 for k in c.values())
        loop = loop or any(u == v for u, v in c)
    if removed and (par or loop):
        ctx.nontrivial(C.__name__, repr(ops))
    ctx.sample(cls=C.__name__, ops=ops)


NOPS = 10
LEN = 4


def exhaustive(ctx):
    i = ctx.i
    C = CLASSES[i % 3]
    i //= 3
    directed = C is not UndirectedGraph
    g = C(2)
    m = Model(directed)
    m.vs = list(g.vertices())
    ops, removed = [], []
    ctx.note(cls=C.__name__, ops=ops)
    for _ in range(LEN):
        k = i % NOPS
        i //= NOPS
        vs = sorted(m.vs)
        if k == 0:
            op, arg = "av", True
        elif k <= 4:
            if len(vs) < 2:
                continue
            u, v = [(0, 0), (0, 1), (1, 0), (1, 1)][k - 1]
            op, arg = "ae", (vs[u], vs[v], False)
        elif k <= 6:
            if not m.es:
                continue
            op, arg = "re", (sorted(m.es)[0 if k == 5 else -1], 2 if k == 5 else 0)
        elif k <= 8:
            if len(vs) <= k - 7:
                continue
            op, arg = "rv", vs[k - 7]
        else:
            op, arg = "cl", None
        ops.append((op, arg))
        apply(ctx, g, m, op, arg, removed)
        check_state(ctx, g, m)
    if removed and m.es:
        ctx.nontrivial(C.__name__, repr(ops))


def large(ctx):
    """Long histories with many parallel edges; state compared at quiescent points."""
    r = ctx.rng
    C = CLASSES[ctx.i % 3]
    g = C()
    m = Model(C is not UndirectedGraph)
    removed = []
    for step in range(600):
        x = r.random()
        if len(m.vs) < 5 or x < 0.05:
            apply(ctx, g, m, "av", True, removed)
        elif x < 0.65:
            u = r.choice(m.vs[:8])
            apply(ctx, g, m, "ae", (u, r.choice(m.vs[:8]), False), removed)
        elif x < 0.97 and m.es:
            apply(ctx, g, m, "re", (r.choice(list(m.es)), r.randrange(3)), removed)
        elif len(m.vs) > 10:
            apply(ctx, g, m, "rv", r.choice(m.vs), removed)
        if step % 40 == 39:
            ctx.note(cls=C.__name__, step=step)
            check_state(ctx, g, m)
    ctx.nontrivial(C.__name__, ctx.i)


def big(ctx):
    """Identifiers above 256, vertices of high degree, many parallel edges, several graphs alive at once."""
    r = ctx.rng
    kind = ctx.i // 3 % 3
    C = CLASSES[ctx.i % 3]
    n0 = [r.randint(258, 330), r.choice([r.randint(40, 80), r.randint(90, 200)]), 3][kind]
    gs = []
    for _ in range(2):
        g = C(n0)
        m = Model(C is not UndirectedGraph)
        m.vs = list(g.vertices())
        ctx.eq(sorted(m.vs), list(range(n0)), "a new graph of n vertices has the vertices 0 to n - 1")
        gs.append((g, m))
    removed = []
    hot = r.randrange(n0)
    steps = 300 if kind < 2 else r.choice([300, 1500])
    for step in range(steps):
        g, m = r.choice(gs) if kind < 2 or r.random() < 0.3 else gs[0]
        pool = [u for u in m.vs if u >= n0 - 6] or m.vs
        x = r.random()
        if len(m.vs) < 3 or x < 0.03:
            apply(ctx, g, m, "av", True, removed)
        elif x < 0.75:
            if kind == 1 and hot in m.vs:
                u, v = hot, r.choice(m.vs)
                if r.random() < 0.4:
                    u, v = v, u
            else:
                u, v = (m.vs[0], m.vs[1]) if kind == 2 and r.random() < 0.7 else (r.choice(pool), r.choice(pool))
            apply(ctx, g, m, "ae", (u, v, False), removed)
        elif x < (0.97 if kind < 2 else 0.9) and m.es:
            apply(ctx, g, m, "re", (r.choice(list(m.es)), r.randrange(3)), removed)
        elif x >= (0.985 if kind < 2 else 0.999):
            apply(ctx, g, m, "rv", r.choice(m.vs if kind else pool), removed)
        c = Counter(m.es.values())
        if c and max(c.values()) > 16:
            ctx.ev("many parallel edges")
            if max(c.values()) > 257:
                ctx.ev("more than 256 parallel edges")
        if any(u > 256 and v > 256 for u, v in m.es.values()):
            ctx.ev("identifiers above 256")
        if step % (steps // 5) == steps // 5 - 1:
            ctx.note(cls=C.__name__, n0=n0, step=step)
            for g, m in gs:
                d = Counter(u for uv in m.es.values() for u in set(uv))
                if d and max(d.values()) > 32:
                    ctx.ev("vertex of high degree")
                check_state(ctx, g, m, deep=r.sample(m.vs, min(4, len(m.vs))) + pool[-3:])
    for g, m in gs:
        apply(ctx, g, m, "cl", None, removed)
        check_state(ctx, g, m)
    for g, m in gs:
        for _ in range(3):
            apply(ctx, g, m, "av", True, removed)
        apply(ctx, g, m, "ae", (m.vs[0], m.vs[-1], False), removed)
        check_state(ctx, g, m)
    ctx.nontrivial(C.__name__, kind, ctx.i)


FAMILIES = [
    Fam("big", big, 216, 3600),
    Fam("exhaustive", exhaustive, 3 * NOPS ** LEN, 3 * NOPS ** LEN),
    Fam("history", history, 6000, 240000),
    Fam("large", large, 96, 2400),
]
