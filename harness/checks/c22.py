"""C22: strong components against mutual reachability."""
from collections import defaultdict

from pybgl.graph import DirectedGraph
from pybgl.incidence_graph import IncidenceGraph
from pybgl.property_map import make_assoc_property_map
from pybgl.strong_components import strong_components

from .. import gen
from ..core import Fam

ANCHORS = ["strong_components.py", "depth_first_search.py"]
RULE = (
    "A case is a directed graph (all digraphs with at most 3 vertices, random ones, cycles of cycles, long chains and rings) whose components are compared "
    "with mutual reachability. Non-trivial: at least 2 components, one of them with 2 vertices or more; distinct by graph."
)
REQUIRED = ["components", "components of size 2+", "edges between components", "loops", "empty graph", "beyond the recursion limit", "large graphs"]
ASSUMPTIONS = ["the component map accepts writes for every vertex"]


def judge(ctx, g, small=True):
    vs = list(g.vertices())
    E = [(g.source(e), g.target(e)) for e in g.edges()]
    comp = defaultdict(int)
    before = (sorted(vs), sorted(map(repr, g.edges())))
    k = strong_components(g, make_assoc_property_map(comp))
    ctx.eq((sorted(g.vertices()), sorted(map(repr, g.edges()))), before, "the graph was altered")
    ctx.eq(set(comp), set(vs), "vertices given a component")
    ctx.note(components=dict(comp), returned=k)
    ctx.eq(set(comp.values()), set(range(k)), "components are not numbered from 0 to their number, without gap")
    for u, v in E:
        ctx.expect(comp[u] >= comp[v], "components are not numbered in reverse topological order", edge=(u, v))
        if comp[u] != comp[v]:
            ctx.ev("edges between components")
        if u == v:
            ctx.ev("loops")
    if small:
        R = {u: gen.closure(None, E, [u]) for u in vs}
        for u in vs:
            for v in vs:
                ctx.eq(comp[u] == comp[v], v in R[u] and u in R[v], "same component is not mutual reachability", u=u, v=v)
    ctx.ev("components", k)
    sizes = defaultdict(int)
    for v in vs:
        sizes[comp[v]] += 1
    ctx.ev("components of size 2+", sum(s > 1 for s in sizes.values()))
    if not vs:
        ctx.ev("empty graph")
    return k > 1 and any(s > 1 for s in sizes.values())


def rand(ctx):
    r = ctx.rng
    n, E = gen.digraph(r, n_max=r.choice([2, 5, 9, 16]))
    g, _, _ = gen.build(r.choice([DirectedGraph, IncidenceGraph]), n, E, r, churn=r.random() < 0.3)
    ctx.note(n=n, edges=E)
    if judge(ctx, g):
        ctx.nontrivial(n, E)
    ctx.sample(n=n, edges=E)


def exhaustive(ctx):
    n, E = gen.nth_digraph(ctx.i, 3)
    ctx.note(n=n, edges=E)
    g, _, _ = gen.build(DirectedGraph, n, E)
    if judge(ctx, g):
        ctx.nontrivial(n, E)


def planted(ctx):
    """Known components (rings with chords), linked by edges going from higher to lower ones."""
    r = ctx.rng
    blocks, k = [], 0
    for _ in range(r.randint(1, 7)):
        m = r.choice([1, 1, 2, 3, 5])
        blocks.append(list(range(k, k + m)))
        k += m
    lab = list(range(k))
    r.shuffle(lab)
    E = []
    for b in blocks:
        if len(b) > 1 or r.random() < 0.3:
            E += [(b[j], b[(j + 1) % len(b)]) for j in range(len(b))]
        for _ in range(r.randint(0, len(b))):
            E.append((r.choice(b), r.choice(b)))
    for _ in range(r.randint(0, 3 * len(blocks))):
        i, j = sorted(r.choices(range(len(blocks)), k=2))
        if i != j:
            E.append((r.choice(blocks[i]), r.choice(blocks[j])))
    E = [(lab[u], lab[v]) for u, v in E]
    r.shuffle(E)
    ctx.note(n=k, edges=E)
    g, ids, _ = gen.build(DirectedGraph, k, E)
    comp = defaultdict(int)
    ctx.eq(strong_components(g, make_assoc_property_map(comp)), len(blocks), "number of components")
    for b in blocks:
        ctx.eq(len({comp[ids[lab[x]]] for x in b}), 1, "a strong component is split", component=[ids[lab[x]] for x in b])
    if judge(ctx, g):
        ctx.nontrivial(k, E)


def deep(ctx):
    r = ctx.rng
    n = r.randint(2500, 4000)
    E = [(k, k + 1) for k in range(n - 1)]
    m = ctx.i % 3
    if m == 1:
        E.append((n - 1, 0))
    elif m == 2:
        E += [(k + 1, k) for k in range(0, n - 1, 2)]
    g, ids, _ = gen.build(DirectedGraph, n, E)
    comp = defaultdict(int)
    k = strong_components(g, make_assoc_property_map(comp))
    ctx.eq(k, n if m == 0 else 1 if m == 1 else (n + 1) // 2, "number of components")
    judge(ctx, g, small=False)
    ctx.ev("beyond the recursion limit")


def large(ctx):
    """Stars, grids, blocks, many parallel edges, high degrees."""
    r = ctx.rng
    n, E = gen.big_digraph(r, scale=r.choice([0.3, 0.7, 1]))
    g, _, _ = gen.build(r.choice([DirectedGraph, IncidenceGraph]), n, E, r, churn=r.random() < 0.3)
    ctx.note(n=n, edges=E)
    if judge(ctx, g):
        ctx.nontrivial(n, repr(E)[:2000])
    ctx.ev("large graphs")


FAMILIES = [
    Fam("large", large, 400, 8000),
    Fam("exhaustive", exhaustive, gen.num_digraphs(3), gen.num_digraphs(3)),
    Fam("rand", rand, 14000, 280000),
    Fam("planted", planted, 6000, 120000),
    Fam("deep", deep, 8, 60),
]
