"""C20: Dijkstra's distances, predecessors and event trace against a fixpoint over the same algebra."""
from collections import Counter, defaultdict

from pybgl.dijkstra_shortest_paths import (
    DijkstraVisitor, dijkstra_shortest_paths, dijkstra_shortest_paths_initialization, dijkstra_shortest_paths_iteration)
from pybgl.graph import DirectedGraph
from pybgl.graph_traversal import BLACK, GRAY, WHITE
from pybgl.heap import Comparable, Heap
from pybgl.property_map import make_assoc_property_map

from .. import gen
from ..core import Fam
from ..semiring import Problem

ANCHORS = ["dijkstra_shortest_paths.py", "heap.py", "algebra.py"]
RULE = (
    "A case is a weighted graph (directed, incidence, undirected; loops, parallel edges, ties, zero weights, unreachable parts), a source and a path algebra "
    "(sums of integers, floats, fractions or tuples, widest, most reliable, bottleneck), compared with the distances obtained by relaxing all edges to a fixpoint and with "
    "the edges tight for them; the visitor trace is judged event by event. Non-trivial: at least 3 reachable vertices; distinct by graph, weights and source."
)
REQUIRED = ["relaxed again (key decreased)", "ties", "unreachable", "tight loops", "undirected", "widest", "reliable", "minimax", "lexicographic", "zeros",
            "examine_edge", "edge_relaxed", "edge_not_relaxed", "compare given", "exceptionally large", "colour map given", "large graphs", "step by step"]
ASSUMPTIONS = ["weights never improve a path, are strictly better than the infinite distance, and are computed exactly", "the order is total and the operation monotonic"]


class Rec(DijkstraVisitor):
    def __init__(self):
        self.log = []

    def initialize_vertex(self, u, g): self.log.append(("initialize_vertex", u))
    def examine_vertex(self, u, g): self.log.append(("examine_vertex", u))
    def examine_edge(self, e, g): self.log.append(("examine_edge", e))
    def discover_vertex(self, u, g): self.log.append(("discover_vertex", u))
    def edge_relaxed(self, e, g): self.log.append(("edge_relaxed", e))
    def edge_not_relaxed(self, e, g): self.log.append(("edge_not_relaxed", e))
    def finish_vertex(self, u, g): self.log.append(("finish_vertex", u))


def trace(ctx, p, log, stop=None):
    """Replays the trace on the reference algebra, one event at a time; it ends at the examination of `stop`."""
    g = p.g
    k = len(p.V)
    ctx.eq(sorted(x for _, x in log[:k]), p.V, "each vertex must be initialized once, first", events=log[:k])
    ctx.expect(all(n == "initialize_vertex" for n, _ in log[:k]), "each vertex must be initialized once, first", events=log[:k])
    d = {p.s: p.zero}
    found, done, last = {p.s}, [], None
    cur, left, edge = None, None, None
    for n, x in log[k:]:
        ctx.ev(n)
        ctx.note(event=(n, x))
        if n == "examine_vertex":
            ctx.expect(cur is None, "a vertex is examined before the former one is finished")
            ctx.expect(x in found and x not in done, "examined vertex neither discovered nor new")
            ctx.eq(d[x], p.dist[x], "a vertex is examined before its distance is known")
            ctx.expect(last is None or not p.strict(d[x], last), "vertices are not examined by increasing distance")
            last, cur, left = d[x], x, list(p.out[x])
        elif n == "examine_edge":
            ctx.expect(cur is not None and edge is None and x in left, "edge examined out of turn or twice")
            left.remove(x)
            edge, pending = x, None
        elif n == "discover_vertex":
            ctx.expect(edge is not None and g.target(edge) == x, "a vertex is discovered out of turn")
            ctx.expect(x not in found, "a vertex is discovered twice")
            found.add(x)
        elif n in ("edge_relaxed", "edge_not_relaxed"):
            ctx.expect(edge == x, "an edge is classified without being examined")
            v = g.target(x)
            w = p.op(d[cur], p.weight(x))
            if v not in d or p.strict(w, d[v]):
                ctx.eq(n, "edge_relaxed", "an improving edge must be reported as relaxed")
                if v in d:
                    ctx.ev("relaxed again (key decreased)")
                d[v] = w
            elif p.strict(d[v], w):
                ctx.eq(n, "edge_not_relaxed", "a useless edge must be reported as not relaxed")
            ctx.expect(v in found, "an edge is relaxed towards a vertex never discovered")
            edge = None
        elif n == "finish_vertex":
            ctx.expect(cur == x and edge is None, "finished vertex is not the one examined")
            ctx.eq(left, [], "a vertex is finished before all its out-edges are examined")
            done.append(x)
            cur = None
        else:
            ctx.fail("event out of place")
    if stop is not None and stop in p.dist:
        ctx.expect(edge is None and cur == stop and len(left) == len(p.out[stop]), "the trace does not end at the examination of the target")
        ctx.expect(stop not in done, "the trace goes on after the target is examined")
        ctx.expect(all(u in done for u in p.dist if p.strict(p.dist[u], p.dist[stop])), "the trace stops before the nearer vertices are finished")
        return
    ctx.expect(cur is None and edge is None, "the trace stops in the middle")
    ctx.eq(sorted(done), sorted(p.dist), "vertices finished")


def judge(ctx, p):
    r = ctx.rng
    g = p.g
    vis = Rec() if r.random() < 0.8 else None
    before = (sorted(g.vertices()), sorted(map(repr, g.edges())))
    pp, pd = p.maps()
    kw = dict(p.kw)
    color = None
    if r.random() < 0.4:
        color = defaultdict(int)
        kw["pmap_vcolor"] = make_assoc_property_map(color)
        ctx.ev("colour map given")
    if "compare" in kw:
        ctx.ev("compare given")
    dijkstra_shortest_paths(g, p.s, p.pw, pp, pd, vis=vis, **kw)
    ctx.eq((sorted(g.vertices()), sorted(map(repr, g.edges()))), before, "the graph was altered")
    ctx.eq(dict(p.vdist), {u: p.dist.get(u, p.infty) for u in p.V}, "distances")
    got = {v: set(es) for v, es in p.preds.items() if es}
    ctx.eq(got, {v: es for v, es in p.tight.items() if es}, "predecessors are not the tight edges")
    if color is not None:
        ctx.eq({u for u, c in color.items() if c != WHITE}, set(p.dist), "vertices coloured as reached")
        ctx.eq({c for u, c in color.items() if u in p.dist}, {BLACK}, "colour of the reached vertices")
    if vis:
        trace(ctx, p, vis.log)
    ctx.ev(p.kind)
    ctx.ev("undirected", int(p.undirected))
    ctx.ev("unreachable", len(p.V) - len(p.dist))
    ctx.ev("ties", sum(len(es) > 1 for es in p.tight.values()))
    ctx.ev("tight loops", sum(g.source(e) == g.target(e) for es in p.tight.values() for e in es))
    if len(p.dist) >= 3:
        ctx.nontrivial(p.kind, [(u, v, str(w)) for u, v, w, _ in p.arcs], p.s)


def by_hand(ctx):
    """The search driven step by step by the caller, with or without visitor."""
    r = ctx.rng
    p = Problem(ctx)
    pp, pd = p.maps()
    color = defaultdict(int)
    pc = make_assoc_property_map(color)
    vis = Rec() if r.random() < 0.5 else None
    kw = {"vis": vis} if vis or r.random() < 0.5 else {}
    dijkstra_shortest_paths_initialization(p.g, p.s, pc, pd, p.zero, p.infty, **kw)
    ctx.eq(dict(p.vdist), {u: p.zero if u == p.s else p.infty for u in p.V}, "distances after the initialization")
    compare = p.kw.get("compare")
    if compare:
        kw["compare"] = compare
    if "combine" in p.kw:
        kw["combine"] = p.kw["combine"]
    heap = Heap([p.s], to_comparable=(lambda u: Comparable(pd[u], compare)) if compare else lambda u: pd[u])
    n = 0
    while heap:
        ctx.expect(n < len(p.V), "more steps than vertices")
        dijkstra_shortest_paths_iteration(heap, p.g, p.pw, pp, pd, pc, **kw)
        n += 1
    ctx.eq(n, len(p.dist), "number of steps")
    ctx.eq(dict(p.vdist), {u: p.dist.get(u, p.infty) for u in p.V}, "distances")
    ctx.eq({v: set(es) for v, es in p.preds.items() if es}, {v: es for v, es in p.tight.items() if es}, "predecessors are not the tight edges")
    ctx.eq({u for u, c in color.items() if c != WHITE}, set(p.dist), "vertices coloured as reached")
    if vis:
        trace(ctx, p, vis.log)
    ctx.ev("step by step")
    if n >= 3:
        ctx.nontrivial("steps", p.kind, [(u, v, str(w)) for u, v, w, _ in p.arcs], p.s)


def rand(ctx):
    p = Problem(ctx)
    judge(ctx, p)
    ctx.sample(kind=p.kind, arcs=[(u, v, str(w)) for u, v, w, _ in p.arcs], s=p.s)


def dense(ctx):
    """Many decreases of keys: complete graphs whose far vertices get closer and closer."""
    r = ctx.rng
    n = r.randint(5, 12)
    m = r.choice([1, 2, 3])
    E = [(u, v) for u in range(n) for v in range(n) if u != v]
    r.shuffle(E)
    g, ids, es = gen.build(DirectedGraph, n, E)
    order = list(ids)
    r.shuffle(order)
    rank = {u: k for k, u in enumerate(order)}
    wt = {}
    for e in es:
        a, b = rank[g.source(e)], rank[g.target(e)]
        wt[e] = m * (b - a) + r.randint(0, 2) + (b - a) ** 2 if b > a else r.randint(0, 100)
    import operator
    from pybgl.algebra import INFINITY
    from pybgl.property_map import make_func_property_map
    p = Problem.__new__(Problem)
    p.kind, p.op, p.strict, p.zero, p.infty, p.kw = "dense", operator.add, lambda a, b: a < b, 0, INFINITY, {}
    p.g, p.ids, p.undirected = g, ids, False
    p.weight = wt.__getitem__
    p.pw = make_func_property_map(p.weight)
    p.V = sorted(g.vertices())
    p.out = {u: list(g.out_edges(u)) for u in p.V}
    p.arcs = [(g.source(e), g.target(e), wt[e], e) for u in p.V for e in p.out[u]]
    p.s = order[0]
    ctx.note(n=n, arcs=[(u, v, w) for u, v, w, _ in p.arcs], s=p.s)
    p.solve()
    judge(ctx, p)


def large(ctx):
    judge(ctx, Problem(ctx, n_max=60))
    ctx.ev("exceptionally large")


def big(ctx):
    """Stars, grids, long chains, many parallel edges."""
    judge(ctx, Problem(ctx, big=True))
    ctx.ev("large graphs")


FAMILIES = [
    Fam("big", big, 480, 9600),
    Fam("rand", rand, 24000, 480000),
    Fam("by hand", by_hand, 8000, 160000),
    Fam("dense", dense, 2400, 48000),
    Fam("large", large, 800, 16000),
]
