"""C29: BK-trees against a linear scan, for metrics of many kinds."""
from pybgl.bk_tree import BKTree, bk_tree_insert, make_bk_tree
from pybgl.lcs_distance import lcs_distance
from pybgl.levenshtein_distance import levenshtein_distance

from .. import gen
from ..core import Fam

ANCHORS = ["bk_tree.py"]
RULE = (
    "A case is an insertion history (repetitions included) in a BK-tree under a metric (Levenshtein, insertion/deletion, discrete, absolute difference, taxicab, Hamming, shortest paths of a random "
    "weighted graph), whose structure and whose answers to searches of any radius, from the root or an inner node, are compared with a linear scan. "
    "Non-trivial: at least 5 elements and a successful search that is not exact; distinct by history."
)
REQUIRED = ["insertions", "repeated insertions", "searches", "found exactly", "found at a distance", "nothing within the radius", "radius 0", "unbounded", "inner node", "ties", "empty tree", "inner insertions", "cleared trees",
            "levenshtein", "random metric", "large trees", "opaque elements"]
ASSUMPTIONS = ["the distance is a metric with integer values", "elements are not None; insertions start from the root (those made from an inner node, which searches from the root may miss, are judged from that node)"]


def metric(r):
    """(name, distance, element generator)"""
    m = r.choice(["levenshtein", "levenshtein", "lcs", "discrete", "absolute", "taxicab", "hamming", "random metric"])
    if m in ("levenshtein", "lcs"):
        a = r.choice(["ab", "abc", "aé雪"])
        n = r.choice([3, 6])
        return m, levenshtein_distance if m == "levenshtein" else lcs_distance, lambda: "".join(r.choice(a) for _ in range(r.randint(0, n)))
    if m == "discrete":
        return m, lambda x, y: int(x != y), lambda: r.randint(0, 12)
    if m == "absolute":
        return m, lambda x, y: abs(x - y), lambda: r.randint(-20, 20)
    if m == "taxicab":
        return m, lambda x, y: abs(x[0] - y[0]) + abs(x[1] - y[1]), lambda: (r.randint(0, 6), r.randint(0, 6))
    if m == "hamming":
        return m, lambda x, y: sum(a != b for a, b in zip(x, y)), lambda: "".join(r.choice("abc") for _ in range(5))
    n = r.randint(2, 14)
    D = [[0 if i == j else 10 ** 6 for j in range(n)] for i in range(n)]
    for i in range(1, n):
        j = r.randrange(i)
        D[i][j] = D[j][i] = r.randint(1, 6)
    for _ in range(r.randint(0, 2 * n)):
        i, j = r.randrange(n), r.randrange(n)
        if i != j:
            D[i][j] = D[j][i] = min(D[i][j], r.randint(1, 9))
    for k in range(n):
        for i in range(n):
            for j in range(n):
                D[i][j] = min(D[i][j], D[i][k] + D[k][j])
    return m, lambda x, y: D[x][y], lambda: r.randrange(n)


def rand(ctx):
    r = ctx.rng
    name, dist, elem = metric(r)
    ctx.ev(name)
    n = r.choice([0, 1, 3, 8, 15, 30])
    words = [elem() for _ in range(n)]
    if words and r.random() < 0.5:
        words += [r.choice(words) for _ in range(r.randint(1, 4))]
    ctx.note(metric=name, inserted=words)
    bulk = r.random() < 0.3
    if bulk:
        t = make_bk_tree(list(words), dist) if name != "levenshtein" or r.random() < 0.5 else make_bk_tree(list(words))
        where = {}
    else:
        t = BKTree(dist)
        where = {}
        if r.random() < 0.2:
            for _ in range(r.randint(1, 5)):
                t.insert(elem())
            t.clear()
            ctx.eq((t.num_vertices(), t.num_edges(), t.search(elem())), (0, 0, None), "a cleared tree")
            ctx.ev("cleared trees")
        for w in words:
            u = t.insert(w) if r.random() < 0.7 else bk_tree_insert(w, t)
            ctx.eq(t.element(u), w, "element of the node returned by insert()")
            if w in where:
                ctx.eq(u, where[w], "inserting again must give the same node", word=w)
                ctx.ev("repeated insertions")
            else:
                ctx.expect(u not in where.values(), "inserting a new element must give a new node", word=w)
            where[w] = u
            ctx.ev("insertions")
            ctx.eq(t.num_vertices(), len(where), "number of nodes")
    inner = []
    if where and r.random() < 0.3:
        for _ in range(r.randint(1, 4)):
            # from an inner node
            w, u = (r.choice(words) if r.random() < 0.3 else elem()), r.choice(list(t.vertices()))
            ctx.note(inner=(w, u))
            at, seen = u, {x: t.element(x) for x in t.vertices()}
            while seen[at] != w:
                nxt = [t.target(e) for e in t.out_edges(at) if t.label(e) == dist(w, seen[at])]
                if not nxt:
                    break
                at, = nxt
            x = t.insert(w, u) if r.random() < 0.5 else bk_tree_insert(w, t, u)
            ctx.eq(t.element(x), w, "element of the node returned by insert() from an inner node")
            if seen[at] == w:
                ctx.eq(x, at, "inserting again from an inner node must give the same node")
            else:
                ctx.expect(x not in seen, "inserting a new element from an inner node must give a new node", got=x)
                ctx.eq([(t.source(e), t.label(e)) for e in t.edges() if t.target(e) == x], [(at, dist(w, seen[at]))], "where the element is inserted from an inner node")
            ctx.eq(t.search(w, r=u), (w, 0), "the element inserted from an inner node is found from it")
            seen[x] = w
            ctx.eq({y: t.element(y) for y in t.vertices()}, seen, "elements after an insertion from an inner node")
            ctx.ev("inner insertions")
            inner.append(w)
        words = words + inner
    V = list(t.vertices())
    elt = {u: t.element(u) for u in V}
    ctx.eq(sorted(set(map(repr, elt.values()))), sorted({repr(w) for w in words}), "elements stored")
    if not inner:
        ctx.eq(len(elt), len({repr(w) for w in words}), "an element is stored once")
    E = [(t.source(e), t.target(e), t.label(e)) for e in t.edges()]
    sub = {u: gen.closure(None, [(a, b) for a, b, _ in E], [u]) for u in V}
    if V:
        ctx.eq(len(E), len(V) - 1, "number of edges of a tree")
        ctx.eq(sub[t.root], set(V), "nodes under the root")
        ctx.eq(elt[t.root], words[0], "element of the root")
        for a, b, d in E:
            for v in sub[b] if not inner else [b]:
                ctx.eq(dist(elt[a], elt[v]), d, "an element is not at the distance written on the edge above it", node=elt[a], element=elt[v])
    else:
        ctx.eq(t.search(elem()), None, "search in an empty tree")
        ctx.ev("empty tree")
    near = False
    for _ in range(0 if inner else 8):
        q = r.choice(words) if words and r.random() < 0.25 else elem()
        rad = r.choice([None, 0, 1, 1, 2, 3, 5, 10])
        root = None
        if V and r.random() < 0.25:
            root = r.choice(V)
        ctx.note(query=q, radius=rad, root=root)
        got = t.search(q) if rad is None and root is None else t.search(q, rad) if root is None else t.search(q, r=root) if rad is None else t.search(q, rad, root)
        cand = [dist(q, elt[u]) for u in (sub[root] if root is not None else V)]
        best = min(cand, default=None)
        ctx.ev("searches")
        if root is not None:
            ctx.ev("inner node")
        if rad is None:
            ctx.ev("unbounded")
        if rad == 0:
            ctx.ev("radius 0")
        if best is None or (rad is not None and best > rad):
            ctx.eq(got, None, "nothing lies within the radius")
            ctx.ev("nothing within the radius")
            continue
        ctx.expect(got is not None, "an element lies within the radius", best=best)
        w, d = got
        ctx.eq(d, best, "distance of the element found", found=got)
        ctx.expect(any(elt[u] == w for u in (sub[root] if root is not None else V)), "the element found is not stored", found=got)
        ctx.eq(dist(q, w), d, "distance given with the element found", found=got)
        ctx.ev("found exactly" if best == 0 else "found at a distance")
        ctx.ev("ties", int(cand.count(best) > 1))
        near = near or best > 0
    if near and len(V) >= 5:
        ctx.nontrivial(name, words)
    ctx.sample(metric=name, inserted=words[:10])


def large(ctx):
    """Hundreds of elements, long words, large distances and radii."""
    r = ctx.rng
    k = ctx.i % 4
    if k == 0:
        al = gen.wide_alphabet(r, 40)
        al = [a for a in al if isinstance(a, str)] or ["a", "b"]
        dist, n = r.choice([levenshtein_distance, lcs_distance]), 30
        if r.random() < 0.4:
            dist = (lambda f, k: lambda x, y: k * f(x, y))(dist, r.choice([60, 300]))
        base = ["".join(r.choice(al) for _ in range(r.choice([5, 20]))) for _ in range(3)]

        def elem():
            w = list(r.choice(base))
            for _ in range(r.choice([0, 1, 2, 8])):
                if w and r.random() < 0.4:
                    del w[r.randrange(len(w))]
                else:
                    w.insert(r.randint(0, len(w)), r.choice(al))
            return "".join(w)
    elif k == 1:
        dist, n = (lambda x, y: abs(x - y)), r.choice([200, 400])
        elem = lambda: r.randint(-2000, 2000)
    elif k == 2:
        dist, n = (lambda x, y: max(abs(x[0] - y[0]), abs(x[1] - y[1]))), r.choice([100, 300])
        elem = lambda: (r.randint(0, 30) + 0.0, r.randint(0, 30))
        dist = (lambda f: lambda x, y: int(f(x, y)))(dist)
    else:
        dist, n = (lambda x, y: int(x != y) * 300), r.choice([5, 300])
        elem = lambda: 10 ** 6 + r.randint(0, 400)
    words = [elem() for _ in range(n)]
    ctx.note(kind=k, inserted=words)
    t = BKTree(dist)
    where = {}
    if r.random() < 0.35:
        m = n - r.choice([0, 0, 3])
        t = make_bk_tree([gen.fresh(w) for w in words[:m]], dist)
        ctx.eq(t.num_vertices(), len(set(words[:m])), "number of nodes of the tree made at once")
        where = {t.element(u): u for u in t.vertices()}
        ctx.eq(set(where), set(words[:m]), "elements stored in the tree made at once")
        words = words[m:] + words[:3]
    for w in words:
        u = t.insert(gen.fresh(w))
        ctx.eq(u == where.get(w, u), True, "inserting again must give the same node", word=w)
        ctx.expect(w in where or u not in set(where.values()), "inserting a new element must give a new node", word=w)
        where[w] = u
    ctx.eq(t.num_vertices(), len(where), "number of nodes")
    ctx.eq(sorted(map(repr, (t.element(u) for u in t.vertices()))), sorted(map(repr, where)), "elements stored")
    for _ in range(8 if k else 4):
        q = gen.fresh(r.choice(words)) if r.random() < 0.3 else elem()
        rad = r.choice([None, 0, 1, 2, 5, 20, 255, 256, 257, 300, 1000])
        ctx.note(query=q, radius=rad)
        got = t.search(q) if rad is None else t.search(q, rad)
        best = min(dist(q, w) for w in where)
        ctx.ev("searches")
        if rad is not None and best > rad:
            ctx.eq(got, None, "nothing lies within the radius")
            continue
        ctx.expect(got is not None and got[1] == best and got[0] in where and dist(q, got[0]) == best, "the element found is not a nearest one", found=got, best=best)
    ctx.ev("large trees")
    ctx.nontrivial(words)


class Thing:
    """An element without any equality but identity."""

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return f"Thing({self.value})"


def opaque(ctx):
    """Elements which only the distance compares: objects, lists, dictionaries."""
    r = ctx.rng
    k = ctx.i % 3
    make = [Thing, lambda v: [v], lambda v: {"v": v}][k]
    value = [lambda x: x.value, lambda x: x[0], lambda x: x["v"]][k]
    scale = r.choice([1, 1, 7])
    dist = lambda x, y: scale * abs(value(x) - value(y))
    vals = [r.randint(-15, 15) for _ in range(r.choice([1, 4, 12, 40]))]
    ctx.note(kind=k, inserted=vals)
    where = {}
    if r.random() < 0.3:
        t = make_bk_tree([make(v) for v in vals], dist)
        where = {value(t.element(u)): u for u in t.vertices()}
    else:
        t = BKTree(dist)
    for v in vals:
        u = t.insert(make(v)) if r.random() < 0.7 else bk_tree_insert(make(v), t)
        ctx.eq(value(t.element(u)), v, "element of the node returned by insert()")
        ctx.eq(u, where.get(v, u), "an element at distance 0 must give the same node", value=v)
        ctx.expect(v in where or u not in where.values(), "inserting a new element must give a new node", value=v)
        where[v] = u
    ctx.eq(t.num_vertices(), len(set(vals)), "number of nodes")
    for _ in range(5):
        q, rad = r.randint(-20, 20), r.choice([None, 0, 1, 3, 20])
        ctx.note(query=q, radius=rad)
        got = t.search(make(q)) if rad is None else t.search(make(q), rad)
        best = min(scale * abs(q - v) for v in vals)
        if rad is not None and best > rad:
            ctx.eq(got, None, "nothing lies within the radius")
        else:
            ctx.expect(got is not None and got[1] == best and scale * abs(value(got[0]) - q) == best, "the element found is not a nearest one", found=got, best=best)
            ctx.expect(any(t.element(u) is got[0] for u in t.vertices()), "the element found is not stored", found=got)
    ctx.ev("opaque elements")
    if len(set(vals)) > 4:
        ctx.nontrivial(k, vals)


FAMILIES = [
    Fam("opaque", opaque, 1500, 30000),
    Fam("large", large, 240, 4800, cpu_s=60),
    Fam("rand", rand, 16000, 320000)]
