"""C21: shortest paths and shortest-path subgraphs extracted, against the exact distances."""
from collections import defaultdict

from pybgl.dijkstra_shortest_paths import (
    dijkstra_shortest_path, dijkstra_shortest_paths, make_shortest_path, make_shortest_paths_dag)
from pybgl.property_map import make_assoc_property_map

from ..core import Fam
from ..semiring import Problem
from . import c20

ANCHORS = ["dijkstra_shortest_paths.py"]
RULE = (
    "A case is a weighted graph with a source (see C20) and a target: path found with early stop, path and subgraph extracted from complete predecessors, judged on the "
    "exact distances. Non-trivial: a path of at least 2 edges; distinct by graph, weights, source and target."
)
REQUIRED = ["paths", "paths of 3+ edges", "empty path", "unreachable", "subgraphs", "subgraphs with alternatives", "zero cycles", "single path", "early stop", "undirected", "with visitor", "colour map given", "large graphs"]
ASSUMPTIONS = ["weights never improve a path, are strictly better than the infinite distance, and are computed exactly"]


def path(ctx, p, t, es, what):
    g = p.g
    ctx.note(path=es)
    at, w = p.s, p.zero
    for e in es:
        ctx.eq(g.source(e), at, f"{what}: edges do not follow each other", edge=e)
        ctx.expect(e in p.out[at], f"{what}: not an edge of the graph", edge=e)
        w = p.op(w, p.weight(e))
        at = g.target(e)
    ctx.eq(at, t, f"{what}: does not lead to the target")
    ctx.eq(w, p.dist[t], f"{what}: weight is not the least")
    ctx.ev("paths")
    ctx.ev("paths of 3+ edges", int(len(es) >= 3))


def one(ctx, p, t):
    r = ctx.rng
    g = p.g
    ctx.note(t=t)
    reach = t in p.dist
    pp, pd = p.maps()
    vis = c20.Rec() if r.random() < 0.3 else None
    kw = dict(p.kw)
    if r.random() < 0.3:
        color = defaultdict(int)
        kw["pmap_vcolor"] = make_assoc_property_map(color)
    es = dijkstra_shortest_path(g, p.s, t, p.pw, pp, pd, vis=vis, **kw)
    if "pmap_vcolor" in kw and t != p.s:
        ctx.expect(color[p.s] != 0 and set(color) <= set(p.V), "the colours given are not used", colors=dict(color))
        ctx.expect(all(color[u] == 0 for u in p.V if u not in p.dist), "an unreachable vertex is coloured", colors=dict(color))
        ctx.ev("colour map given")
    if vis:
        ctx.ev("with visitor")
        c20.trace(ctx, p, vis.log, stop=t)
    if not reach:
        ctx.eq(es, None, "an unreachable target has no path")
        ctx.ev("unreachable")
    else:
        ctx.expect(isinstance(es, list), "a path is a list of edges", path=es)
        path(ctx, p, t, es, "early stop")
        ctx.eq(p.vdist[t], p.dist[t], "distance of the target after the early stop")
        if t == p.s:
            ctx.eq(es, [], "path from a vertex to itself")
            ctx.ev("empty path")
        elif any(p.vdist[u] == p.infty for u in p.dist):
            ctx.ev("early stop")
        if len(es) >= 2:
            ctx.nontrivial(p.kind, [(u, v, str(w)) for u, v, w, _ in p.arcs], p.s, t)
    # from complete predecessors
    pp, pd = p.maps()
    dijkstra_shortest_paths(g, p.s, p.pw, pp, pd, **p.kw)
    keep = p.between(t)
    if reach:
        path(ctx, p, t, make_shortest_path(g, p.s, t, pp), "make_shortest_path")
    else:
        keep = set()
    ctx.eq(set(make_shortest_paths_dag(g, p.s, t, pp)), keep, "edges lying on some least path")
    ctx.ev("subgraphs")
    ctx.ev("subgraphs with alternatives", int(len({g.target(e) for e in keep}) < len(keep)))
    sources = {g.source(e) for e in keep}
    ctx.ev("zero cycles", int(p.s in {g.target(e) for e in keep} or t in sources))
    single = make_shortest_paths_dag(g, p.s, t, pp, single_path=True)
    ctx.expect(set(single) <= keep, "the single path has edges on no least path", single=single)
    if reach:
        # the edges of one path: each vertex left once, from s to t
        nxt = {g.source(e): e for e in single}
        ctx.eq(len(nxt), len(single), "the single path forks", single=single)
        at, es = p.s, []
        while at != t and at in nxt and len(es) <= len(single):
            es.append(nxt[at])
            at = g.target(nxt[at])
        path(ctx, p, t, es, "single path")
        ctx.eq(set(es), set(single), "the single path has edges apart")
        ctx.ev("single path")
    else:
        ctx.eq(set(single), set(), "a path to an unreachable target")
    ctx.ev("undirected", int(p.undirected))


def rand(ctx):
    p = Problem(ctx)
    for t in ctx.rng.sample(p.V, min(3, len(p.V))):
        one(ctx, p, t)
    ctx.sample(kind=p.kind, arcs=[(u, v, str(w)) for u, v, w, _ in p.arcs], s=p.s)


def large(ctx):
    p = Problem(ctx, n_max=50)
    one(ctx, p, ctx.rng.choice(p.V))


def big(ctx):
    """Stars, grids, long chains, many parallel edges."""
    p = Problem(ctx, big=True)
    for t in ctx.rng.sample(p.V, 2) if p.far is None else [p.far, ctx.rng.choice(p.V)]:
        one(ctx, p, t)
    ctx.ev("large graphs")


FAMILIES = [
    Fam("big", big, 480, 9600, cpu_s=10),
    Fam("rand", rand, 20000, 400000, cpu_s=10),
    Fam("large", large, 800, 16000, cpu_s=10),
]
