"""C35: what each visitor of an aggregate receives, compared with what it receives alone."""
import contextlib
import io

from collections import defaultdict

from pybgl.aggregated_visitor import AggregatedVisitor
from pybgl.automaton import Automaton
from pybgl.breadth_first_search import DefaultBreadthFirstSearchVisitor, breadth_first_search_graph
from pybgl.depth_first_search import DefaultDepthFirstSearchVisitor, depth_first_search_graph
from pybgl.dijkstra_shortest_paths import DijkstraVisitor, dijkstra_shortest_paths
from pybgl.graph import DirectedGraph
from pybgl.graph_traversal import DefaultTreeTraversalVisitor, bfs_tree, dfs_tree
from pybgl.parallel_breadth_first_search import ParallelBreadthFirstSearchVisitor, parallel_breadth_first_search
from pybgl.property_map import make_assoc_property_map, make_func_property_map

from .. import gen
from ..core import Fam

ANCHORS = ["aggregated_visitor.py"]
RULE = (
    "A case is a search run once per recording visitor and once with all of them aggregated, the traces being compared, together with the interleaving of the "
    "visitors; or a list of calls made directly. Non-trivial: at least 2 visitors and 5 events; distinct by case."
)
REQUIRED = ["bfs", "dfs", "dijkstra", "tree", "parallel", "events relayed", "keyword arguments", "retrieved", "not found", "nested", "empty aggregate", "raising visitor", "visitor added on the way", "visitor removed on the way", "visitors returning values", "many events", "equal visitors", "visitor given twice", "retrieved on the way"]
ASSUMPTIONS = ["the visitors do not alter the graph"]


def events_of(Base):
    return [n for n in dir(Base) if not n.startswith("__") and callable(getattr(Base, n))]


ANSWERS = [None, None, True, False, 0, 1, "", "x", NotImplemented, StopIteration, [], {}]


def answer(rank, name, n):
    """What a visitor returns: nothing that matters."""
    return ANSWERS[(rank * 5 + len(name) + n) % len(ANSWERS)]


def classes(Base, k, shared):
    """k recording classes (distinct types, named V0, V1...), logging in `shared` as (rank, event, args, kwargs)."""
    names = events_of(Base)
    out = []
    for j in range(k):
        def mk(name):
            def f(self, *args, **kw):
                self.log.append((name, args, tuple(sorted(kw.items()))))
                shared.append((self.rank, name, args, tuple(sorted(kw.items()))))
                return answer(self.rank, name, len(self.log))
            return f

        C = type(f"V{j}", (Base,), {n: mk(n) for n in names})
        C.__module__ = "verif_visitors"
        out.append(C)
    return out


def searches(ctx):
    """(kind, Base, run(vis)) over a random graph; repeatable."""
    r = ctx.rng
    kind = r.choice(["bfs", "dfs", "dijkstra", "tree", "parallel"])
    if kind == "parallel":
        d1, d2 = gen.dfa(r, alphabet=["a", "b"]), gen.dfa(r, alphabet=["a", "b"])
        g1, g2 = gen.build_dfa(Automaton, d1)[0], gen.build_dfa(Automaton, d2)[0]
        ctx.note(kind=kind, g1=d1, g2=d2)
        return kind, ParallelBreadthFirstSearchVisitor, lambda v: parallel_breadth_first_search(g1, g2, vis=v)
    n, E = gen.digraph(r, n_max=8, n_min=1, kind="tree" if kind == "tree" else None)
    g, ids, es = gen.build(DirectedGraph, n, E)
    s = r.choice(ids)
    ctx.note(kind=kind, n=n, edges=E, source=s)
    if kind == "bfs":
        return kind, DefaultBreadthFirstSearchVisitor, lambda v: breadth_first_search_graph(g, {s}, vis=v)
    if kind == "dfs":
        return kind, DefaultDepthFirstSearchVisitor, lambda v: depth_first_search_graph(g, vis=v)
    if kind == "tree":
        f = r.choice([dfs_tree, bfs_tree])
        return kind, DefaultTreeTraversalVisitor, lambda v: f(s, g, v)
    w = {e: r.randint(0, 5) for e in es}

    def dij(v):
        dijkstra_shortest_paths(
            g, s, make_func_property_map(lambda e: w[e]),
            make_assoc_property_map(defaultdict(set)), make_assoc_property_map(defaultdict(lambda: float("inf"))), vis=v)
    return kind, DijkstraVisitor, dij


def search(ctx):
    r = ctx.rng
    kind, Base, run = searches(ctx)
    k = r.choice([0, 1, 2, 3, 5])
    shared = []
    Cs = classes(Base, k, shared)
    pick = [r.choice(Cs) if r.random() < 0.2 else C for C in Cs]
    alone = []
    for j, C in enumerate(pick):
        v = C()
        v.rank, v.log = j, []
        run(v)
        alone.append(v.log)
    shared.clear()
    vs = []
    for j, C in enumerate(pick):
        v = C()
        v.rank, v.log = j, []
        vs.append(v)
    nested = k > 1 and r.random() < 0.3
    if nested:
        m = r.randrange(k + 1)
        agg = AggregatedVisitor([AggregatedVisitor(vs[:m])] + vs[m:]) if r.random() < 0.5 else AggregatedVisitor(vs[:m] + [AggregatedVisitor(vs[m:])])
        ctx.ev("nested")
    elif not k:
        agg = AggregatedVisitor() if r.random() < 0.5 else AggregatedVisitor([])
        ctx.ev("empty aggregate")
    else:
        agg = AggregatedVisitor(list(vs))
    run(agg)
    ctx.ev(kind)
    for j, v in enumerate(vs):
        ctx.eq(v.log, alone[j], "a visitor does not receive in the aggregate what it receives alone", rank=j)
    # interleaving: each event goes to 0, 1, ..., k-1 before the next event
    for t in range(0, len(shared), max(k, 1)):
        grp = shared[t:t + k]
        ctx.eq([x[0] for x in grp], list(range(k)), "visitors are not called in the order given", event=grp[0][1])
        ctx.eq(len({(x[1], repr(x[2])) for x in grp}), 1, "visitors do not receive one event at a time")
    ctx.ev("events relayed", len(shared))
    if not nested:
        lookup(ctx, agg, vs)
    if k > 1 and len(shared) > 5 * k:
        ctx.nontrivial(ctx.i)
    ctx.sample(kind=kind, visitors=k, events=len(shared))


def lookup(ctx, agg, vs):
    keys = {f"verif_visitors.{type(v).__name__}" for v in vs}
    ctx.eq(set(agg.keys()), keys, "keys()")
    for v in vs:
        key = AggregatedVisitor.type_to_key(v)
        ctx.eq(key, f"verif_visitors.{type(v).__name__}", "type_to_key()")
        got = agg.get(key)
        ctx.expect(type(got) is type(v) and any(got is x for x in vs), "get() does not return the visitor of that type", key=key)
        ctx.expect(got is next(x for x in vs if type(x) is type(v)), "get() does not return the first visitor of that type", key=key)
        ctx.ev("retrieved")
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        for v in vs:
            ctx.eq(agg.get(type(v).__name__), None, "get() of the end of a key")
            ctx.eq(agg.get("verif_visitors"), None, "get() of the beginning of a key")
        ctx.eq(agg.get("no.such.Type"), None, "get() of an unknown type")
        ctx.eq(agg.get("no.such.Type", 5), 5, "get() of an unknown type with a default")
    ctx.ev("not found")


def direct(ctx):
    """Any event name, positional and keyword arguments; a visitor that raises stops the event there."""
    r = ctx.rng
    k = r.randint(1, 4)
    log = []
    bad = r.randrange(k) if r.random() < 0.3 else None

    class Stop(Exception):
        pass

    class V:
        def __init__(self, j):
            self.j = j

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)

            def f(*args, **kw):
                log.append((self.j, name, args, kw))
                if self.j == bad:
                    raise Stop()
                return ret[self.j]
            return f

    x = r.random()
    if x < 0.2:
        # all equal, yet distinct
        V.__eq__ = lambda self, o: type(o) is type(self)
        V.__hash__ = (lambda self: 7) if r.random() < 0.5 else None
        ctx.ev("equal visitors", int(k > 1))
    elif x < 0.4:
        # visitors that look empty or false
        V.__len__ = lambda self: 0
        if r.random() < 0.5:
            V.__bool__ = lambda self: False
    ret = [r.choice(ANSWERS) for _ in range(k)]
    ctx.ev("visitors returning values", int(any(x is not None for x in ret)))
    ranks = list(range(k))
    vs = [V(j) for j in range(k)]
    if r.random() < 0.15:
        # the same visitor twice
        j = r.randrange(k)
        ranks.append(j)
        vs.append(vs[j])
        ctx.ev("visitor given twice")
    agg = AggregatedVisitor(vs)
    for _ in range(r.randint(1, 5)):
        x = r.random()
        if x < 0.15:
            # one more visitor from now on
            j = len(ret)
            ret.append(r.choice(ANSWERS))
            i = r.randrange(len(ranks) + 1)
            ranks.insert(i, j)
            agg.visitors.insert(i, V(j))
            ctx.ev("visitor added on the way")
        elif x < 0.25 and len(ranks) > 1:
            i = r.randrange(len(ranks))
            del ranks[i], agg.visitors[i]
            ctx.ev("visitor removed on the way")
        # what is answered follows the visitors
        if r.random() < 0.3:
            key = r.choice([AggregatedVisitor.type_to_key(x) for x in agg.visitors] + ["verif_visitors.None"])
            ctx.eq(agg.keys(), {AggregatedVisitor.type_to_key(x) for x in agg.visitors}, "keys() does not follow the visitors")
            first = next((x for x in agg.visitors if AggregatedVisitor.type_to_key(x) == key), None)
            with contextlib.redirect_stdout(io.StringIO()):
                ctx.expect(agg.get(key) is first, "get() does not follow the visitors", key=key)
            ctx.ev("retrieved on the way")
        name = r.choice(["discover_vertex", "anything", "examine_edge", "x1"])
        args = tuple(r.choice([0, None, "s", (1, 2), [3]]) for _ in range(r.randint(0, 3)))
        kw = {n: r.randrange(5) for n in r.sample(["g", "e", "u"], r.randint(0, 2))}
        if kw:
            ctx.ev("keyword arguments")
        log.clear()
        ctx.note(name=name, args=args, kw=kw, visitors=k, raising=bad)
        stopped = False
        try:
            getattr(agg, name)(*args, **kw)
        except Stop:
            stopped = True
        m = ranks if bad not in ranks else ranks[:ranks.index(bad) + 1]
        ctx.eq(log, [(j, name, args, kw) for j in m], "calls relayed")
        ctx.eq(stopped, bad in ranks, "an exception raised by a visitor must reach the search")
        ctx.ev("raising visitor", int(stopped))
        ctx.ev("events relayed", len(m))
        for x in log:
            ctx.expect(all(a is b for a, b in zip(x[2], args)), "an argument was copied")


def large(ctx):
    """Many events, many visitors."""
    r = ctx.rng
    n, E = gen.big_digraph(r, scale=r.choice([0.3, 1]))
    g, ids, es = gen.build(DirectedGraph, n, E)
    k = r.choice([2, 12, 40, 90])
    Base, run = r.choice([
        (DefaultBreadthFirstSearchVisitor, lambda v: breadth_first_search_graph(g, {ids[0]}, vis=v)),
        (DefaultDepthFirstSearchVisitor, lambda v: depth_first_search_graph(g, vis=v)),
    ])
    ctx.note(n=n, edges=E, visitors=k)
    shared = []
    vs = []
    for j, C in enumerate(classes(Base, k, shared)):
        v = C()
        v.rank, v.log = j, []
        vs.append(v)
    alone = classes(Base, 1, [])[0]()
    alone.rank, alone.log = 0, []
    run(alone)
    shared.clear()
    agg = AggregatedVisitor(list(vs))
    run(agg)
    keys = [AggregatedVisitor.type_to_key(v) for v in vs]
    ctx.eq(agg.keys(), set(keys), "keys() of many visitors")
    for j in {r.randrange(k), k - 1, k // 2}:
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.expect(agg.get(keys[j]) is vs[keys.index(keys[j])], "get() among many visitors", key=keys[j])
    for v in vs:
        ctx.expect(v.log == alone.log, "a visitor does not receive in the aggregate what it receives alone", rank=v.rank, events=len(v.log), expected_events=len(alone.log))
    ctx.eq([x[0] for x in shared], list(range(k)) * len(alone.log), "visitors are not called in the order given")
    ctx.ev("many events", len(shared))
    ctx.nontrivial(n, len(E), k)


FAMILIES = [
    Fam("large", large, 240, 3200),
    Fam("search", search, 12000, 240000),
    Fam("direct", direct, 800, 10000),
]
