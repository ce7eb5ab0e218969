"""Weighted graphs and path algebras for the shortest path checks (C20, C21)."""
import operator
from collections import defaultdict
from fractions import Fraction

from pybgl.algebra import INFINITY, ClosedMax, ClosedMin, ClosedPlus, ClosedTime, GreaterThan, Less
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.incidence_graph import IncidenceGraph
from pybgl.property_map import make_assoc_property_map, make_func_property_map

from . import gen

FINF = float("inf")


def better(a, b):
    return a < b


def higher(a, b):
    return a > b


# name -> (weight generator, reference operation, strict order, unit, worst, keyword arguments for pybgl)
def algebra(r):
    name = r.choice(["ints", "ints", "ties", "zeros", "floats", "fractions", "inf", "widest", "reliable", "minimax", "lexicographic"])
    add = operator.add
    if name == "ints":
        m = r.choice([9, 100, 10 ** 9])
        return name, lambda: r.randint(0, m), add, better, 0, INFINITY, r.choice([{}, {"compare": Less()}, {"compare": operator.le}, {"combine": add}])
    if name == "ties":
        return name, lambda: r.randint(1, 2), add, better, 0, INFINITY, r.choice([{}, {"compare": Less()}, {"compare": lambda a, b: a <= b}])
    if name == "zeros":
        return name, lambda: r.choice([0, 0, 1]), add, better, 0, INFINITY, r.choice([{}, {"compare": Less()}, {"compare": operator.le}])
    if name == "floats":
        return name, lambda: r.randint(0, 64) / 16, add, better, 0, INFINITY, {}
    if name == "fractions":
        return name, lambda: Fraction(r.randint(0, 6), r.randint(1, 4)), add, better, Fraction(0), INFINITY, {"zero": Fraction(0)}
    if name == "inf":
        return name, lambda: r.randint(0, 5), add, better, 0, FINF, {"infty": FINF, "combine": ClosedPlus(FINF)}
    if name == "widest":
        m = r.choice([3, 50])
        return name, lambda: r.randint(1, m), min, higher, INFINITY, 0, {
            "zero": INFINITY, "infty": 0, "combine": r.choice([min, ClosedMin()]),
            "compare": r.choice([GreaterThan(), operator.ge, lambda a, b: a >= b])}
    if name == "reliable":
        return name, lambda: Fraction(r.randint(1, 4), 4), operator.mul, higher, Fraction(1), Fraction(0), {
            "zero": Fraction(1), "infty": Fraction(0), "combine": r.choice([operator.mul, ClosedTime(absorbing=0)]),
            "compare": r.choice([GreaterThan(), operator.ge])}
    if name == "minimax":
        return name, lambda: r.randint(0, 6), max, better, 0, INFINITY, {"combine": r.choice([max, ClosedMax()]), **r.choice([{}, {"compare": operator.le}])}
    tup = lambda a, b: (a[0] + b[0], a[1] + b[1])
    return name, lambda: (r.randint(0, 2), r.randint(0, 2)), tup, better, (0, 0), (FINF, FINF), {"zero": (0, 0), "infty": (FINF, FINF), "combine": tup}


class Problem:
    """A weighted graph with the exact answers, by iteration to a fixpoint."""

    def __init__(self, ctx, n_max=None, alg=None, big=False):
        r = ctx.rng
        self.kind, weight, self.op, self.strict, self.zero, self.infty, self.kw = alg or algebra(r)
        G = r.choice([DirectedGraph, DirectedGraph, IncidenceGraph, UndirectedGraph])
        n, E = gen.big_digraph(r, scale=r.choice([0.3, 1])) if big else gen.digraph(r, n_max=n_max or r.choice([3, 6, 9, 14]), n_min=1)
        lens = big and r.random() < 0.15
        if lens:
            n, E = gen.lens(r)
        self.g, self.ids, es = gen.build(G, n, E, r, churn=r.random() < 0.2 and G is not UndirectedGraph)
        g = self.g
        w = {e: weight() for e in es}
        if big and r.random() < (0.7 if lens else 0.1):
            x = weight()
            w = dict.fromkeys(es, x)
        self.undirected = G is UndirectedGraph
        if self.undirected:
            key = lambda e: (min(g.source(e), g.target(e)), max(g.source(e), g.target(e)), e.distinguisher)
            wk = {key(e): x for e, x in w.items()}
            self.weight = lambda e: wk[key(e)]
            self.pw = make_func_property_map(self.weight)
        else:
            self.weight = w.__getitem__
            self.pw = make_assoc_property_map(defaultdict(int, w)) if r.random() < 0.5 else make_func_property_map(self.weight)
        self.V = sorted(g.vertices())
        self.out = {u: list(g.out_edges(u)) for u in self.V}
        self.arcs = [(g.source(e), g.target(e), self.weight(e), e) for u in self.V for e in self.out[u]]
        self.s = self.ids[0] if lens else r.choice(self.V)
        self.far = self.ids[n - 1] if lens else None
        ctx.note(algebra=self.kind, kw=sorted(self.kw), undirected=self.undirected, vertices=self.V,
                 arcs=[(u, v, str(x)) for u, v, x, _ in self.arcs], s=self.s)
        self.solve()

    def solve(self):
        d = {self.s: self.zero}
        for _ in range(len(self.V) + 1):
            changed = False
            for u, v, w, _ in self.arcs:
                if u in d:
                    x = self.op(d[u], w)
                    if v not in d or self.strict(x, d[v]):
                        d[v] = x
                        changed = True
            if not changed:
                break
        else:
            raise AssertionError("the reference did not converge")
        self.dist = d
        self.tight = {v: set() for v in self.V}
        for u, v, w, e in self.arcs:
            if u in d and self.op(d[u], w) == d[v]:
                self.tight[v].add(e)

    def maps(self):
        self.preds, self.vdist = defaultdict(set), defaultdict(int)
        return make_assoc_property_map(self.preds), make_assoc_property_map(self.vdist)

    def between(self, t):
        """Edges lying on some least path (walk) from s to t."""
        if t not in self.dist:
            return set()
        keep, todo, seen = set(), [t], {t}
        while todo:
            v = todo.pop()
            for e in self.tight[v]:
                keep.add(e)
                u = self.g.source(e)
                if u not in seen:
                    seen.add(u)
                    todo.append(u)
        return keep
