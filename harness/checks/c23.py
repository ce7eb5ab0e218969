"""C23: topological sort against the order the edges impose."""
from collections import deque

from pybgl.graph import DirectedGraph
from pybgl.incidence_graph import IncidenceGraph
from pybgl.topological_sort import topological_sort

from .. import gen
from ..core import Fam

ANCHORS = ["topological_sort.py", "depth_first_search.py"]
RULE = (
    "A case is a directed graph (all digraphs with at most 3 vertices, random DAGs, DAGs with one edge added that closes a cycle, long chains) sorted; "
    "Kahn's algorithm tells whether it must be refused. Non-trivial: at least 3 vertices and 2 edges; distinct by graph."
)
REQUIRED = ["sorted", "refused", "refused self-loop", "container given", "container holding something", "empty graph", "beyond the recursion limit", "parallel edges", "large graphs"]
ASSUMPTIONS = ["the container supplied is a deque; the order is put before what it holds"]


def acyclic(vs, E):
    indeg = {v: 0 for v in vs}
    for _, v in E:
        indeg[v] += 1
    adj = {v: [] for v in vs}
    for u, v in E:
        adj[u].append(v)
    todo = [v for v in vs if not indeg[v]]
    k = 0
    for u in todo:
        k += 1
        for v in adj[u]:
            indeg[v] -= 1
            if not indeg[v]:
                todo.append(v)
    return k == len(indeg)


def judge(ctx, g):
    vs = list(g.vertices())
    E = [(g.source(e), g.target(e)) for e in g.edges()]
    before = (sorted(vs), sorted(map(repr, g.edges())))
    given = deque() if ctx.rng.random() < 0.4 else None
    held = []
    if given is not None and ctx.rng.random() < 0.3:
        # left by a previous sort
        held = ctx.rng.sample(vs, min(len(vs), ctx.rng.randint(1, 4))) + ([-1] if ctx.rng.random() < 0.3 else [])
        given.extend(held)
        ctx.note(held=held)
    f = (lambda: topological_sort(g, given)) if given is not None else (lambda: topological_sort(g))
    if acyclic(vs, E):
        out = f()
        order = list(out)
        ctx.note(order=order)
        if held:
            ctx.eq(order[len(order) - len(held):], held, "what the container held")
            ctx.eq(list(given), order, "the container given does not hold the order")
            order = order[:len(order) - len(held)]
            ctx.ev("container holding something")
        ctx.eq(sorted(order), sorted(vs), "vertices sorted")
        pos = {v: k for k, v in enumerate(order)}
        for u, v in E:
            ctx.expect(pos[u] < pos[v], "an edge goes backwards in the order", edge=(u, v))
        if given is not None and not held:
            ctx.eq(list(given), order, "the container given does not hold the order")
            ctx.ev("container given")
        ctx.ev("sorted")
        if len(set(E)) < len(E):
            ctx.ev("parallel edges")
    else:
        ctx.raises(Exception, f, "a cyclic graph was sorted")
        ctx.ev("refused")
        if any(u == v for u, v in E):
            ctx.ev("refused self-loop")
    ctx.eq((sorted(g.vertices()), sorted(map(repr, g.edges()))), before, "the graph was altered")
    if not vs:
        ctx.ev("empty graph")
    return len(vs) > 2 and len(E) > 1


def rand(ctx):
    r = ctx.rng
    n, E = gen.digraph(r, n_max=r.choice([2, 5, 9, 16]), kind=r.choice(["dag", "dag", "tree", "layers", "sparse", "chain", "multi"]))
    if r.random() < 0.3:
        E = E + [r.choice(E) for _ in range(2)] if E else E
    g, _, _ = gen.build(r.choice([DirectedGraph, IncidenceGraph]), n, E, r, churn=r.random() < 0.3)
    ctx.note(n=n, edges=E)
    if judge(ctx, g):
        ctx.nontrivial(n, E)
    ctx.sample(n=n, edges=E)


def closed(ctx):
    """A DAG with one more edge, from a vertex to one of those which reach it."""
    r = ctx.rng
    n, E = gen.digraph(r, n_max=12, kind=r.choice(["dag", "tree", "layers"]), n_min=1)
    u = r.randrange(n)
    v = r.choice(sorted(gen.closure(None, E, [u])))
    E = E + [(v, u)]
    r.shuffle(E)
    g, _, _ = gen.build(r.choice([DirectedGraph, IncidenceGraph]), n, E, r)
    ctx.note(n=n, edges=E)
    if judge(ctx, g):
        ctx.nontrivial(n, E)


def exhaustive(ctx):
    n, E = gen.nth_digraph(ctx.i, 3)
    ctx.note(n=n, edges=E)
    g, _, _ = gen.build(DirectedGraph, n, E)
    if judge(ctx, g):
        ctx.nontrivial(n, E)


def deep(ctx):
    r = ctx.rng
    n = r.randint(2500, 4000)
    lab = list(range(n))
    if ctx.i % 2:
        r.shuffle(lab)
    E = [(lab[k], lab[k + 1]) for k in range(n - 1)]
    if ctx.i % 4 == 3:
        E.append((lab[-1], lab[r.randrange(n)]))
    g, _, _ = gen.build(DirectedGraph, n, E)
    judge(ctx, g)
    ctx.ev("beyond the recursion limit")


def large(ctx):
    """Stars, grids, blocks, many parallel edges, high degrees."""
    r = ctx.rng
    n, E = gen.big_digraph(r, scale=r.choice([0.3, 0.7, 1]), kind=r.choice(["dag", "forest", "grid", "comb", "chain", "out star", "in star", "parallel", "ring", "sparse"]))
    g, _, _ = gen.build(r.choice([DirectedGraph, IncidenceGraph]), n, E, r, churn=r.random() < 0.3)
    ctx.note(n=n, edges=E)
    if judge(ctx, g):
        ctx.nontrivial(n, repr(E)[:2000])
    ctx.ev("large graphs")


FAMILIES = [
    Fam("large", large, 400, 8000),
    Fam("exhaustive", exhaustive, gen.num_digraphs(3), gen.num_digraphs(3)),
    Fam("rand", rand, 14000, 280000),
    Fam("closed", closed, 6000, 120000),
    Fam("deep", deep, 8, 60),
]
