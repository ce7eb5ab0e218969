"""C19: tree traversals judged on their event trace."""
from collections import Counter

from pybgl.automaton import Automaton
from pybgl.graph import DirectedGraph
from pybgl.graph_traversal import DefaultTreeTraversalVisitor, bfs_tree, dfs_tree
from pybgl.incidence_graph import IncidenceGraph
from pybgl.trie import Trie

from .. import gen
from ..core import Fam
from ..traces import recorder

ANCHORS = ["graph_traversal.py"]
RULE = (
    "A case is a rooted tree (all trees given by a parent vector up to 6 nodes, random, deep and wide ones) traversed both ways from some node, the trace "
    "being compared with the tree. Non-trivial: some node of the traversed part has 2 children or more; distinct by tree and root."
)
REQUIRED = ["dfs", "bfs", "branching", "single node", "rooted inside a larger tree", "trie", "no visitor", "tree inside a graph", "wide levels"]
ASSUMPTIONS = ["the part reachable from the root is a tree"]
EVENTS = ["start_vertex", "discover_vertex", "examine_edge", "finish_vertex"]


def judge(ctx, g, root):
    kids = {u: [g.target(e) for e in g.out_edges(u)] for u in g.vertices()}
    E = [(u, v) for u in kids for v in kids[u]]
    sub = gen.closure(None, E, [root])
    depth, todo = {root: 0}, [root]
    for u in todo:
        for v in kids[u]:
            depth[v] = depth[u] + 1
            todo.append(v)
    par = {v: u for u, v in E}
    for kind, f in (("dfs", dfs_tree), ("bfs", bfs_tree)):
        log = []
        f(root, g, recorder(DefaultTreeTraversalVisitor, EVENTS, log))
        ctx.note(kind=kind, trace=[(x[0], x[1]) for x in log])
        for x in log:
            ctx.expect(x[-1] is g, "an event does not carry the graph", event=x[0])
        ctx.eq([x[1] for x in log if x[0] == "start_vertex"], [root], f"{kind}: start_vertex() events")
        ctx.eq(log[0][0], "start_vertex", f"{kind}: first event")
        disc = [x[1] for x in log if x[0] == "discover_vertex"]
        ctx.eq(Counter(disc), Counter(sub), f"{kind}: nodes visited")
        fin = [x[1] for x in log if x[0] == "finish_vertex"]
        ctx.eq(Counter(fin), Counter(sub), f"{kind}: nodes finished")
        pos_d = {x[1]: k for k, x in enumerate(log) if x[0] == "discover_vertex"}
        pos_f = {x[1]: k for k, x in enumerate(log) if x[0] == "finish_vertex"}
        ex = {}
        for k, x in enumerate(log):
            if x[0] == "examine_edge":
                u = g.source(x[1])
                ctx.expect(u in sub, f"{kind}: an edge outside the tree is examined", edge=x[1])
                ctx.expect(pos_d[u] < k < pos_f[u], f"{kind}: an edge is not examined between discovery and finish of its source", edge=x[1])
                ex.setdefault(u, []).append(x[1])
        for u in sub:
            ctx.eq(Counter(ex.get(u, [])), Counter(g.out_edges(u)), f"{kind}: edges examined", node=u)
            ctx.expect(pos_d[u] < pos_f[u], f"{kind}: a node is finished before its discovery", node=u)
            if u != root:
                ctx.expect(disc.index(par[u]) < disc.index(u) if len(sub) < 60 else pos_d[par[u]] < pos_d[u], f"{kind}: a node is visited before its parent", node=u)
        if kind == "bfs":
            ds = [depth[u] for u in disc]
            ctx.eq(ds, sorted(ds), "bfs: nodes are not visited by depth")
        else:
            # pre-order: each subtree is visited contiguously
            idx = {u: k for k, u in enumerate(disc)}
            size, last = {}, {}
            for u in sorted(sub, key=lambda x: -depth[x]):
                size[u] = 1 + sum(size[v] for v in kids[u])
                last[u] = max([idx[u]] + [last[v] for v in kids[u]])
            for u in sub:
                ctx.eq(last[u] - idx[u] + 1, size[u], "dfs: a subtree is not visited before the next sibling's", node=u)
        ctx.ev(kind, len(disc))
        f(root, g)
        ctx.ev("no visitor")
    if len(sub) == 1:
        ctx.ev("single node")
    if len(sub) < len(kids):
        ctx.ev("rooted inside a larger tree")
    if any(len(kids[u]) > 1 for u in sub):
        ctx.ev("branching")
        return True
    return False


def tree(r, n, kind):
    par = []
    for v in range(1, n):
        par.append(v - 1 if kind == "chain" else 0 if kind == "star" else (v - 1) // 2 if kind == "binary" else r.randrange(v) if kind == "random"
                   else max(0, v - 1 - r.randrange(3)))
    return par


def build(ctx, par):
    r = ctx.rng
    n = len(par) + 1
    lab = list(range(n))
    r.shuffle(lab)
    E = [(lab[p], lab[v + 1]) for v, p in enumerate(par)]
    r.shuffle(E)
    g, ids, _ = gen.build(r.choice([DirectedGraph, IncidenceGraph]), n, E, r, churn=r.random() < 0.3)
    return g, [ids[lab[k]] for k in range(n)]


def exhaustive(ctx):
    i, n = ctx.i, 1
    f = 1
    while i >= f:
        i -= f
        n += 1
        f *= n - 1
    par = []
    for v in range(1, n):
        i, p = divmod(i, v)
        par.append(p)
    g, ids = build(ctx, par)
    ctx.note(parents=par, ids=ids)
    if judge(ctx, g, ids[0]):
        ctx.nontrivial(par)


def rand(ctx):
    r = ctx.rng
    par = tree(r, r.randint(1, r.choice([3, 10, 40])), r.choice(["chain", "star", "binary", "random", "near"]))
    g, ids = build(ctx, par)
    root = ids[0] if r.random() < 0.6 else r.choice(ids)
    ctx.note(parents=par, ids=ids, root=root)
    if judge(ctx, g, root):
        ctx.nontrivial(par, ids.index(root))
    ctx.sample(parents=par, root=root)


def trie(ctx):
    r = ctx.rng
    t = Trie()
    ws = [gen.random_string(r, 5, "ab") for _ in range(r.randint(0, 8))]
    for w in ws:
        t.insert(w)
    ctx.note(words=ws)
    if judge(ctx, t, t.initial()):
        ctx.nontrivial(ws)
    ctx.ev("trie")


def large(ctx):
    r = ctx.rng
    if ctx.i % 5 == 4:  # very wide, two or three levels
        k = r.choice([300, 700])
        par = [0] * k + [r.randint(1, k) for _ in range(k)] + [r.randint(k + 1, 2 * k) for _ in range(r.choice([0, k]))]
        ctx.ev("wide levels")
    else:
        par = tree(r, 1500, ["chain", "star", "binary", "random"][ctx.i % 5])
    g, ids = build(ctx, par)
    judge(ctx, g, ids[0])


def elsewhere(ctx):
    """The part out of reach of the root is any graph, with edges into the tree."""
    r = ctx.rng
    par = tree(r, r.randint(1, 10), r.choice(["star", "binary", "random", "near"]))
    n = len(par) + 1
    k = r.randint(1, 5)
    E = [(p, v + 1) for v, p in enumerate(par)] + [(r.randrange(n, n + k), r.randrange(n + k)) for _ in range(r.randint(1, 8))]
    r.shuffle(E)
    g, ids, _ = gen.build(r.choice([DirectedGraph, IncidenceGraph]), n + k, E, r, churn=r.random() < 0.3)
    ctx.note(parents=par, edges=E)
    root = ids[0]
    for kind, f in (("dfs", dfs_tree), ("bfs", bfs_tree)):
        log = []
        f(root, g, recorder(DefaultTreeTraversalVisitor, EVENTS, log))
        ctx.eq(Counter(x[1] for x in log if x[0] == "discover_vertex"), Counter(ids[:n]), f"{kind}: nodes visited")
        ctx.eq(Counter(x[1] for x in log if x[0] == "finish_vertex"), Counter(ids[:n]), f"{kind}: nodes finished")
        ctx.eq(Counter(x[1] for x in log if x[0] == "examine_edge"), Counter(e for u in ids[:n] for e in g.out_edges(u)), f"{kind}: edges examined")
    ctx.ev("tree inside a graph")


FAMILIES = [
    Fam("elsewhere", elsewhere, 1200, 20000),
    Fam("exhaustive", exhaustive, 1 + 1 + 2 + 6 + 24 + 120, 1 + 1 + 2 + 6 + 24 + 120 + 720),
    Fam("rand", rand, 10000, 200000),
    Fam("trie", trie, 1200, 20000),
    Fam("large", large, 40, 400),
]
del Automaton
