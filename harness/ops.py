"""A table of operations that read their operands: each made on random operands, and run as many times as wanted.

A Job has `operands` ({name: object}, all that the caller gave), `run()` (answer in a canonical form, with no
reference to the operands) and sometimes `make()` (an object built from the operands).  The callbacks the jobs
give (visitors, filters, property maps) go through `Bomb.tick`, which raises when armed.
"""
from collections import Counter, defaultdict, deque

from pybgl.aggregated_visitor import AggregatedVisitor
from pybgl.automaton import Automaton, accepts, automaton_insert_string, delta_best_effort, make_automaton
from pybgl.automaton_copy import automaton_copy
from pybgl.bk_tree import BKTree, make_bk_tree
from pybgl.breadth_first_search import DefaultBreadthFirstSearchVisitor, breadth_first_search, breadth_first_search_graph
from pybgl.cut import cut
from pybgl.damerau_levenshtein_distance import damerau_levenshtein_distance
from pybgl.depth_first_search import DefaultDepthFirstSearchVisitor, depth_first_search, depth_first_search_graph
from pybgl.deterministic_inclusion import deterministic_inclusion
from pybgl.deterministic_intersection import deterministic_intersection
from pybgl.deterministic_union import deterministic_union
from pybgl.digital_sequence import DigitalSequence
from pybgl.dijkstra_shortest_paths import (
    DijkstraVisitor, dijkstra_shortest_path, dijkstra_shortest_paths, make_shortest_path, make_shortest_paths_dag,
)
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.graph_copy import graph_copy
from pybgl.graph_dp import GraphDp
from pybgl.graph_extract import graph_extract
from pybgl.graph_traversal import DefaultTreeTraversalVisitor, bfs_tree, dfs_tree
from pybgl.graph_view import GraphView
from pybgl.heap import Heap
from pybgl.hopcroft_minimize import hopcroft_agglomerate_states, hopcroft_minimize
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_graph import IncidenceGraph
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
from pybgl.lcs_distance import lcs_distance
from pybgl.levenshtein_distance import levenshtein_distance
from pybgl.moore_determination import moore_determination
from pybgl.nfa import Nfa
from pybgl.node_automaton import NodeAutomaton
from pybgl.parallel_breadth_first_search import ParallelBreadthFirstSearchVisitor, parallel_breadth_first_search
from pybgl.property_map import make_assoc_property_map, make_func_property_map
from pybgl.prune_incidence_automaton import find_reachable_vertices
from pybgl.regexp import compile_dfa, compile_nfa
from pybgl.reverse import reverse_dict
from pybgl.revuz_minimize import revuz_height
from pybgl.shunting_yard_postfix import MAP_OPERATORS_ALG, MAP_OPERATORS_RE, shunting_yard_postfix, tokenizer_alg
from pybgl.strong_components import strong_components
from pybgl.suffix_trie import make_suffix_trie
from pybgl.topological_sort import topological_sort
from pybgl.trie import Trie
from pybgl.trie_matching import trie_matching

from . import gen, nfaref


class Boom(Exception):
    pass


class Bomb:
    """Counts the callbacks; raises at the one asked for."""

    def __init__(self):
        self.left = None
        self.calls = 0
        self.filters = {}

    def tick(self):
        self.calls += 1
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                raise Boom()


# ------------------------------------------------------------ what is observable
def is_graph(x):
    return hasattr(x, "vertices") and hasattr(x, "edges")


def snap(x):
    """Everything observable of an operand."""
    if isinstance(x, GraphView):
        return ("view", sorted(x.vertices()), sorted(map(repr, ((e.source, e.target, e.distinguisher) for e in x.edges()))), snap(x.g))
    if is_graph(x):
        vs = sorted(x.vertices())
        aut = hasattr(x, "is_final")
        lab = (lambda e: x.label(e)) if hasattr(x, "label") else (lambda e: None)
        es = list(x.edges())
        out = [
            type(x).__name__, vs, x.num_vertices(), x.num_edges(), x.directed,
            sorted(repr((x.source(e), x.target(e), e.distinguisher, lab(e))) for e in es),
            [sorted(repr((x.source(e), x.target(e), lab(e))) for e in x.out_edges(u)) for u in vs],
        ]
        if isinstance(x, (IncidenceGraph, IncidenceAutomaton, IncidenceNodeAutomaton, UndirectedGraph)):
            out.append([sorted(repr((x.source(e), x.target(e), lab(e))) for e in x.in_edges(u)) for u in vs])
        if aut:
            out.append([(bool(x.is_final(u)), bool(x.is_initial(u))) for u in vs])
            out.append(sorted(map(repr, x.alphabet())))
        if isinstance(x, Nfa):
            out.append((sorted(x.initials), repr(x.epsilon)))
        if isinstance(x, NodeAutomaton):
            out.append([repr(x.symbol(u)) for u in vs])
        if isinstance(x, BKTree):
            out.append(([repr(x.element(u)) for u in vs], x.root))
        return out
    if isinstance(x, Heap):
        return (len(x), repr(list(x)))
    if isinstance(x, GraphDp):
        return ("dp", snap(x.g), sorted(x.dpv), sorted(x.dpe), snap(x.dg), snap(x.dv), snap(x.de), list(x.extra_style))
    if isinstance(x, dict):
        return ("dict", sorted(((repr(k), snap(v)) for k, v in x.items())))
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    if isinstance(x, (list, tuple, deque)):
        return (type(x).__name__, [snap(y) for y in x])
    if isinstance(x, (str, int, float, bytes, bool)) or x is None:
        return repr(x)
    return type(x).__name__


class Job:
    def __init__(self, name, operands, run, make=None, result=None):
        self.name, self.operands, self._run, self.make = name, operands, run, make
        self.bomb = Bomb()
        self.result = result

    def run(self):
        return self._run(self.bomb)

    def snapshot(self):
        return {k: snap(v) for k, v in self.operands.items()}


# ------------------------------------------------------------ pieces
def counting(Base, bomb, log):
    """A visitor that logs its events, without order."""
    def mk(name):
        def f(self, *args):
            log[(name, repr([a for a in args if not is_graph(a)]))] += 1
            bomb.tick()
        return f

    names = [n for n in dir(Base) if not n.startswith("_") and callable(getattr(Base, n))]
    return type("Logging", (Base,), {n: mk(n) for n in names})()


def fgraph(r, kinds=None, cls=None, **kw):
    n, E = gen.digraph(r, n_max=kw.pop("n_max", 7), n_min=kw.pop("n_min", 1), kind=kinds, **kw)
    return gen.build(cls or r.choice([DirectedGraph, IncidenceGraph]), n, E, r, churn=r.random() < 0.4)


def flt(bomb, table):
    """The same object for the same table, so that a job may be run again with the very same arguments."""
    if id(table) not in bomb.filters:
        def f(x, *a):
            bomb.tick()
            return table[x]
        bomb.filters[id(table)] = (f, make_func_property_map(f), table)
    return bomb.filters[id(table)][0]


def pmap(bomb, table):
    flt(bomb, table)
    return bomb.filters[id(table)][1]


def table(r, xs, p=0.7):
    return {x: r.random() < p for x in xs}


def sources(r, ids):
    s = r.sample(ids, r.randint(1, len(ids)))
    return r.choice([set, list, tuple, frozenset, deque])(s)


def lang(g):
    """Canonical form of the language: minimal complete classes, numbered by a search."""
    d = gen.read_dfa(g)
    cls, DEAD = gen.minimal_classes(d, states=list(g.vertices()))
    al = sorted(d.alphabet(), key=repr)
    start = cls[d.init] if d.init is not None else cls[DEAD]
    rep = {c: q for q, c in cls.items()}
    num, todo, out = {start: 0}, [start], []
    for c in todo:
        q = rep[c]
        row = []
        for a in al:
            t = d.delta(q, a) if q != DEAD else None
            t = cls[t if t is not None else DEAD]
            if t not in num:
                num[t] = len(num)
                todo.append(t)
            row.append((repr(a), num[t]))
        out.append((q != DEAD and q in d.finals, row))
    return out


# ------------------------------------------------------------ the jobs
def j_bfs(r):
    g, ids, es = fgraph(r, cls=r.choice([DirectedGraph, IncidenceGraph, UndirectedGraph]))
    s, ok, many = r.choice(ids), table(r, list(g.edges()) + [e for u in ids for e in g.out_edges(u)]), sources(r, ids)
    one, filt, view = r.random() < 0.5, r.random() < 0.5, r.random() < 0.2
    vok = table(r, ids)
    h = GraphView(g, make_func_property_map(lambda u: vok.get(u, True)), None) if view else g

    def run(b):
        log = Counter()
        kw = {"vis": counting(DefaultBreadthFirstSearchVisitor, b, log)}
        if filt:
            kw["if_push"] = flt(b, ok)
        if one:
            breadth_first_search(s, h, **kw)
        else:
            breadth_first_search_graph(h, many, **kw)
        return sorted(x for x in log.items() if "vertex" in x[0][0])
    return Job("breadth_first_search", {"g": h, "sources": many}, run)


def j_dfs(r):
    g, ids, es = fgraph(r, cls=r.choice([DirectedGraph, IncidenceGraph]))
    s, ok, many = r.choice(ids), table(r, es), sources(r, ids)
    k, filt = r.randrange(3), r.random() < 0.5

    def run(b):
        log = Counter()
        kw = {"vis": counting(DefaultDepthFirstSearchVisitor, b, log)}
        if filt:
            kw["if_push"] = flt(b, ok)
        if k == 0:
            depth_first_search(s, g, make_assoc_property_map(defaultdict(int)), **kw)
        elif k == 1:
            depth_first_search_graph(g, many, **kw)
        else:
            depth_first_search_graph(g, **kw)
        return sorted(x for x in log.items() if "vertex" in x[0][0])
    return Job("depth_first_search", {"g": g, "sources": many}, run)


def j_dijkstra(r):
    g, ids, es = fgraph(r)
    s, t = r.choice(ids), r.choice(ids)
    w = {e: r.choice([0, 1, 2, 3, 5]) for e in es}
    towards = r.random() < 0.4

    def run(b):
        log = Counter()
        preds, dist = defaultdict(set), defaultdict(int)
        vis = counting(DijkstraVisitor, b, log)
        args = (pmap(b, w), make_assoc_property_map(preds), make_assoc_property_map(dist))
        if towards:
            p = dijkstra_shortest_path(g, s, t, *args, vis=vis)
            return None if p is None else sum(w[e] for e in p)
        dijkstra_shortest_paths(g, s, *args, vis=vis)
        return sorted(dist.items()), sorted((u, sorted(map(repr, p))) for u, p in preds.items() if p)
    return Job("dijkstra", {"g": g, "weights": w}, run)


def j_paths(r):
    g, ids, es = fgraph(r)
    s = r.choice(ids)
    w = {e: r.choice([1, 2, 3]) for e in es}
    preds, dist = defaultdict(set), defaultdict(int)
    dijkstra_shortest_paths(g, s, make_assoc_property_map(defaultdict(int, w)), make_assoc_property_map(preds), make_assoc_property_map(dist))
    R = gen.closure(None, [(g.source(e), g.target(e)) for e in es], [s])
    t = r.choice(sorted(R))
    for u in ids:
        preds[u]  # so that reading the map adds nothing
    single = r.random() < 0.4

    def run(b):
        pm = make_func_property_map(lambda u: (b.tick(), preds[u])[1])
        return (len(make_shortest_path(g, s, t, pm)), sorted(map(repr, make_shortest_paths_dag(g, s, t, pm))),
                len(make_shortest_paths_dag(g, s, t, pm, single_path=single)) if single else None)
    return Job("shortest paths", {"g": g, "preds": preds}, run)


def j_scc(r):
    g, ids, es = fgraph(r)

    def run(b):
        comp = defaultdict(int)
        k = strong_components(g, make_assoc_property_map(comp))
        parts = defaultdict(set)
        for u in ids:
            parts[comp[u]].add(u)
        return k, sorted(map(sorted, parts.values()))
    return Job("strong_components", {"g": g}, run)


def j_topo(r):
    g, ids, es = fgraph(r, kinds=r.choice(["dag", "dag", "tree", "cycles"]))

    def run(b):
        try:
            o = list(topological_sort(g))
        except RuntimeError:
            return "cycle"
        pos = {u: i for i, u in enumerate(o)}
        return sorted(o), all(pos[g.source(e)] < pos[g.target(e)] for e in g.edges())
    return Job("topological_sort", {"g": g}, run)


def j_cut(r):
    g, ids, es = fgraph(r)
    s, inc = r.choice(ids), table(r, es, 0.3)
    return Job("cut", {"g": g, "in_cut": inc}, lambda b: sorted(cut(s, g, flt(b, inc))))


def j_extract(r):
    g, ids, es = fgraph(r)
    s = r.choice(ids)
    vok, eok = table(r, ids), table(r, es)
    vok[s] = True

    def run(b):
        vs, e2 = [], []
        graph_extract(s, g, pmap(b, vok), pmap(b, eok), lambda u, g: vs.append(u), lambda e, g: e2.append(repr(e)))
        return sorted(vs), sorted(e2)
    return Job("graph_extract", {"g": g, "vertices kept": vok, "edges kept": eok}, run)


def j_copy(r):
    g, ids, es = fgraph(r)
    s = r.choice(ids)
    vok, eok = table(r, ids, 0.9), table(r, es, 0.9)
    vok[s] = True

    def make(b=None):
        b = b or Bomb()
        h = type(g)()
        vertices = defaultdict(lambda: None)
        graph_copy(s, g, h, pmap(b, vok), pmap(b, eok), make_assoc_property_map(vertices))
        return h, vertices

    def run(b):
        h, vertices = make(b)
        back = {v: u for u, v in vertices.items()}
        return sorted(back[v] for v in h.vertices()), sorted((back[h.source(e)], back[h.target(e)]) for e in h.edges())
    return Job("graph_copy", {"g": g, "vertices kept": vok, "edges kept": eok}, run, lambda: make()[0])


def j_view(r):
    g, ids, es = fgraph(r)
    v1, e1, v2, e2 = table(r, ids), table(r, es), table(r, ids), table(r, es)
    a = GraphView(g, make_func_property_map(lambda u: v1.get(u, True)), make_func_property_map(lambda e: e1.get(e, True)))
    c = GraphView(g, make_func_property_map(lambda u: v2.get(u, True)), make_func_property_map(lambda e: e2.get(e, True)))

    def run(b):
        out = []
        for v in (a, c, a | c, a & c, a - c):
            out.append((sorted(v.vertices()), sorted(map(repr, v.edges())), v.num_vertices(), v.num_edges(),
                        [(u, sorted(map(repr, v.out_edges(u))), v.out_degree(u)) for u in sorted(v.vertices())]))
            b.tick()
        return out
    return Job("graph_view", {"g": g, "a": a, "c": c, "tables": [v1, e1, v2, e2]}, run)


def j_view_dot(r):
    """The Dot form of a view, restricted to vertices and edges given in containers of the caller."""
    g, ids, es = fgraph(r, cls=r.choice([DirectedGraph, IncidenceGraph, UndirectedGraph]))
    v1, e1 = table(r, ids), table(r, es)
    v = GraphView(g, make_func_property_map(lambda u: v1.get(u, True)), make_func_property_map(lambda e: e1.get(e, True)))
    kw = {}
    if r.random() < 0.7:
        kw["vs"] = r.choice([set, list, frozenset])(u for u in ids if r.random() < 0.7)
    if r.random() < 0.7:
        kw["es"] = r.choice([set, list, frozenset])(e for e in es if r.random() < 0.7)
    for k in ("dg", "dpv"):
        if r.random() < 0.3:
            kw[k] = {"color": "red"} if k == "dg" else {"color": make_func_property_map(lambda u: "blue")}
    return Job("GraphView.to_dot", {"g": g, "view": v, **kw}, lambda b: lines(v.to_dot(**kw)))


def j_tree(r):
    n, E = gen.digraph(r, n_max=8, n_min=1, kind="tree")
    g, ids, es = gen.build(r.choice([DirectedGraph, IncidenceGraph]), n, E, r)
    root = next(u for u in ids if all(g.target(e) != u for e in es))
    f = r.choice([dfs_tree, bfs_tree])

    def run(b):
        log = Counter()
        f(root, g, counting(DefaultTreeTraversalVisitor, b, log))
        return sorted(log.items())
    return Job("tree traversal", {"g": g}, run)


def lines(s):
    return sorted(x.strip().rstrip(";}").strip() for x in s.split("\n"))


def j_dot(r):
    g, ids, es = fgraph(r, cls=r.choice([DirectedGraph, IncidenceGraph, UndirectedGraph]))
    vl, el = {u: r.choice("abc<&") for u in ids}, {e: r.randrange(5) for e in es}
    kw = {}
    ops = {"g": g, "labels": [vl, el]}
    dpv = {"label": make_func_property_map(lambda u: vl[u])}
    dpe = {"label": make_func_property_map(lambda e: el[e])}
    if r.random() < 0.6:
        kw["dpv"] = ops["dpv"] = dict(dpv)
    if r.random() < 0.6:
        kw["dpe"] = ops["dpe"] = dict(dpe)
    for k in ("dg", "dv", "de"):
        if r.random() < 0.4:
            kw[k] = ops[k] = {"color": r.choice(["red", "blue"])}
    if r.random() < 0.3:
        kw["vs"] = ops["vs"] = sources(r, ids)
    if r.random() < 0.3:
        kw["es"] = ops["es"] = [e for e in es if r.random() < 0.7]
    if r.random() < 0.4:
        dp = GraphDp(g, dict(dpv), dict(dpe), *[{"color": "red"} if r.random() < 0.5 else None for _ in range(3)])
        ops["dp"] = dp
        json = r.random() < 0.5
        return Job("GraphDp", ops, lambda b: dp.to_json() if json else lines(dp.to_dot(**kw)))
    return Job("to_dot", ops, lambda b: lines(g.to_dot(**kw)))


AUT = [Automaton, IncidenceAutomaton, NodeAutomaton, IncidenceNodeAutomaton]


def automaton(r, classes=AUT, **kw):
    C = r.choice(classes)
    if issubclass(C, NodeAutomaton):
        d, sym = gen.node_dfa(r, **kw)
        return gen.build_node_dfa(C, d, sym, r)[0], d
    d = gen.dfa(r, **kw)
    return gen.build_dfa(C, d, r, churn=r.random() < 0.3)[0], d


def j_accepts(r):
    g, d = automaton(r)
    ws = gen.words(r, sorted(d.alphabet(), key=repr) or ["a"], 6)

    def run(b):
        return [(bool(g.accepts(w)), bool(accepts(w, g)), g.delta_word(g.initial(), w), tuple(g.delta_best_effort(w)), tuple(delta_best_effort(g, w)))
                for w in ws] + [sorted(map(repr, g.alphabet())), sorted(g.finals()), g.initial(), g.is_complete(), lines(g.to_dot())]
    return Job("accepts", {"g": g, "words": ws}, run)


def two(r):
    al = r.choice([["a"], ["a", "b"], [0, 1], ["\u00e9", "b", "c"]])
    g = automaton(r, [Automaton, IncidenceAutomaton], alphabet=al)[0]
    return (g, g if r.random() < 0.15 else automaton(r, [Automaton, IncidenceAutomaton], alphabet=al)[0])


def j_union(r):
    g1, g2 = two(r)
    return Job("deterministic_union", {"g1": g1, "g2": g2}, lambda b: lang(deterministic_union(g1, g2)), lambda: deterministic_union(g1, g2))


def j_intersection(r):
    g1, g2 = two(r)
    return Job("deterministic_intersection", {"g1": g1, "g2": g2}, lambda b: lang(deterministic_intersection(g1, g2)), lambda: deterministic_intersection(g1, g2))


def j_inclusion(r):
    g1, g2 = two(r)
    return Job("deterministic_inclusion", {"g1": g1, "g2": g2}, lambda b: (deterministic_inclusion(g1, g2), deterministic_inclusion(g2, g1), deterministic_inclusion(g1, g1)))


def j_parallel(r):
    g1, g2 = two(r)

    def run(b):
        log = Counter()
        parallel_breadth_first_search(g1, g2, vis=counting(ParallelBreadthFirstSearchVisitor, b, log))
        return sorted(x for x in log.items() if "vertex" in x[0][0])
    return Job("parallel_breadth_first_search", {"g1": g1, "g2": g2}, run)


def j_acopy(r):
    g, d = automaton(r, [Automaton, IncidenceAutomaton])

    def make(b=None):
        h = r.choice([Automaton, IncidenceAutomaton])()
        f = {}

        def dup(u, g_, v, h_):
            f[u] = v
            if b:
                b.tick()
            if g_.is_final(u):
                h_.set_final(v)
        automaton_copy(g.initial(), g, h, callback_dup_vertex=dup)
        h.set_initial(f[g.initial()])
        return h
    return Job("automaton_copy", {"g": g}, lambda b: lang(make(b)), make)


def j_hopcroft(r):
    g, d = automaton(r, [IncidenceAutomaton])
    if r.random() < 0.15:
        g = IncidenceAutomaton()
    return Job("hopcroft_minimize", {"g": g}, lambda b: (lang(hopcroft_minimize(g)), sorted(map(sorted, hopcroft_agglomerate_states(g)))), lambda: hopcroft_minimize(g))


def j_heights(r):
    g, d = automaton(r, [IncidenceAutomaton, IncidenceNodeAutomaton], acyclic=True)
    leaves = r.choice([None, {q for q in g.vertices() if g.out_degree(q) == 0}])

    def run(b):
        h = defaultdict(int)
        k = revuz_height(g, make_assoc_property_map(h), leaves)
        return k, sorted(h.items()), sorted(find_reachable_vertices(g, {g.initial()}))
    return Job("revuz_height", {"g": g, "leaves": leaves}, run)


def nfa(r):
    ref = nfaref.random_nfa(r, r.choice([["a"], ["a", "b"], [0, 1]]), r.choice(["\u03b5", "\u03b5", "e"]))
    return nfaref.build_nfa(ref, Nfa, r), ref


def j_nfa(r):
    g, ref = nfa(r)
    ws = gen.words(r, sorted(ref.alphabet()) or ["a"], 5, 5)

    def run(b):
        return [(bool(g.accepts(w)), sorted(g.delta_word(w))) for w in ws] + [
            [(sorted(map(repr, g.sigma(q))), [sorted(g.delta(q, a)) for a in sorted(g.alphabet())]) for q in g.vertices()],
            sorted(g.delta_epsilon(set(g.initials))), sorted(g.finals()), lines(g.to_dot())]
    return Job("Nfa", {"g": g, "words": ws, "initials": g.initials}, run)


def j_moore(r):
    g, ref = nfa(r)
    c = r.random() < 0.5
    return Job("moore_determination", {"g": g}, lambda b: lang(moore_determination(g, complete=c)), lambda: moore_determination(g, complete=c))


def trie(r, words=None):
    g = Trie()
    for w in words if words is not None else [gen.random_string(r, 4, "ab") for _ in range(r.randint(0, 5))]:
        g.insert(w)
    return g


def j_tries(r):
    a = trie(r)
    c = a if r.random() < 0.15 else trie(r)
    k = gen.random_string(r, 4, "ab")
    s = DigitalSequence(k)

    def run(b):
        return (trie_matching(a, c), trie_matching(a, s), [a.accepts(w) for w in ("", k, "ab")], s.accepts(k), sorted(s.delta_best_effort("ab")), lang(s))
    return Job("trie_matching", {"a": a, "c": c, "s": s}, run)


def j_fusion(r):
    ws = [gen.random_string(r, 4, "ab") for _ in range(r.randint(0, 4))]
    c = trie(r)

    def make():
        a = trie(r, ws)
        a.insert(c)
        return a
    return Job("insertion of a trie", {"c": c, "words": ws}, lambda b: lang(make()), make)


def j_suffix(r):
    w = gen.random_string(r, 6, "abc")
    m = r.choice([None, 0, 1, 2, 3])
    return Job("make_suffix_trie", {"w": w}, lambda b: lang(make_suffix_trie(w, m)), lambda: make_suffix_trie(w, m))


def j_make(r):
    d = gen.dfa(r, alphabet=["a", "b"])
    ts = d.edges() or [(0, 0, "a")]
    names = {x for q, s, _ in ts for x in (q, s)}
    q0 = r.choice(sorted(names))
    fin = defaultdict(bool, {q: r.random() < 0.4 for q in names})
    C = r.choice([Automaton, IncidenceAutomaton])

    def make():
        return make_automaton(ts, q0, make_assoc_property_map(fin), C)
    return Job("make_automaton", {"transitions": ts, "finals": fin}, lambda b: lang(make()), make)


EXPRESSIONS = ["a", "ab|c", "(a|b)*c", "a{2,3}", "[a-c]+", "[^a]?b", "\\d+(\\.\\d+)?", "(ab)*|(ba)+", "a{0}", "x?y?z?"]


def j_regexp(r):
    e = r.choice(EXPRESSIONS)
    ws = ["", "a", "ab", "c", "aa", "12.5", "abab", "xyz", "b", "abcc"]
    return Job("compile", {"words": ws}, lambda b: ([bool(compile_nfa(e).accepts(w)) for w in ws], lang(compile_dfa(e))), lambda: r.choice([compile_nfa, compile_dfa])(e))


def j_heap(r):
    xs = [r.randrange(9) for _ in range(r.randint(0, 8))]
    ys = [r.randrange(9) for _ in range(3)]

    def make(b=None):
        h = Heap(xs, to_comparable=lambda x: (b and b.tick(), -x)[1])
        for y in ys:
            h.push(y)
        return h

    def run(b):
        h = make(b)
        one = (list(h), list(h), len(h), str(h), bool(h))
        return one, [h.pop() for _ in range(len(h))], len(h)
    return Job("Heap", {"elements": xs}, run, make)


def j_heap_reads(r):
    h = Heap([r.randrange(9) for _ in range(r.randint(0, 8))])
    return Job("Heap (read)", {"heap": h}, lambda b: (list(h), str(h), len(h), bool(h), [x for x, _ in zip(h, range(2))]))


def j_bk(r):
    xs = [gen.random_string(r, 4, "ab") for _ in range(r.randint(0, 8))]
    w = gen.random_string(r, 4, "ab")

    def dist(b):
        return lambda x, y: (b.tick(), levenshtein_distance(x, y))[1]

    def best(t, m):
        a = t.search(w, m) if m is not None else t.search(w)
        return None if a is None else a[1]

    def run(b):
        t = make_bk_tree(xs, dist(b))
        return [best(t, m) for m in (None, 0, 1, 2)], sorted(t.element(u) for u in t.vertices())
    return Job("make_bk_tree", {"elements": xs}, run, lambda: make_bk_tree(xs, levenshtein_distance))


def j_bk_search(r):
    t = make_bk_tree([gen.random_string(r, 4, "ab") for _ in range(r.randint(1, 8))])
    w = gen.random_string(r, 4, "ab")
    return Job("BKTree.search", {"tree": t}, lambda b: [(t.search(w, m) or (0, None))[1] for m in (0, 1, 2, 9)] + [lines(t.to_dot())])


def j_distances(r):
    x, y = list(gen.random_string(r, 5, "ab")), list(gen.random_string(r, 5, "ab"))
    return Job("distances", {"x": x, "y": y}, lambda b: [f("".join(x), "".join(y)) for f in (levenshtein_distance, damerau_levenshtein_distance, lcs_distance)])


def j_shunting(r):
    toks = list(r.choice(["1+2*3", "(1-2)^2", "-1+-2", "4/2/2", "2^3^2"]))
    ops = dict(MAP_OPERATORS_ALG)
    toks = tokenizer_alg("".join(toks))
    return Job("shunting_yard_postfix", {"tokens": toks, "operators": ops, "shared": [MAP_OPERATORS_ALG, MAP_OPERATORS_RE]}, lambda b: list(shunting_yard_postfix(toks, ops)))


def j_reverse_dict(r):
    d = {i: r.randrange(100) for i in range(r.randint(0, 6))}
    return Job("reverse_dict", {"d": d}, lambda b: sorted(reverse_dict(d)))


def j_aggregate(r):
    g, ids, es = fgraph(r, cls=DirectedGraph)
    vs = [DefaultBreadthFirstSearchVisitor() for _ in range(r.randint(0, 3))]
    s = r.choice(ids)

    def run(b):
        log = Counter()
        breadth_first_search(s, g, vis=AggregatedVisitor([counting(DefaultBreadthFirstSearchVisitor, b, log)] + vs))
        return sorted(x for x in log.items() if "vertex" in x[0][0])
    return Job("AggregatedVisitor", {"g": g, "visitors": vs}, run)


JOBS = [v for k, v in sorted(globals().items()) if k.startswith("j_")]


# ------------------------------------------------------------ altering an object by its interface
def alter(x, r):
    """Some updates of x; returns their description, or None if x cannot be altered."""
    if isinstance(x, DigitalSequence) or isinstance(x, GraphView):
        return None
    if is_graph(x):
        out = []
        node = isinstance(x, NodeAutomaton)
        aut = hasattr(x, "is_final")
        for _ in range(r.randint(1, 4)):
            vs = sorted(x.vertices())
            k = r.choice(["vertex", "edge", "final", "initial", "remove", "word", "edge out"])
            if hasattr(x, "map_velement"):
                x.insert(gen.random_string(r, 4, "abz"))
                out.append("insert")
            elif isinstance(x, Trie):
                if k == "final" and vs and type(x) is Trie:
                    try:
                        x.set_final(r.choice(vs), r.random() < 0.5)
                    except Exception:
                        continue  # a suffix trie is built on a function
                    out.append(k)
                else:
                    try:
                        x.insert(gen.random_string(r, 5, "abz"))
                    except Exception:
                        continue
                    out.append("insert")
            elif k == "vertex":
                x.add_vertex(r.choice(["p", "q"])) if node else x.add_vertex()
                out.append(k)
            elif k == "edge" and vs:
                u, v = r.choice(vs), r.choice(vs)
                if node:
                    if v not in {x.target(e) for e in x.out_edges(u)} and x.symbol(v) not in x.sigma(u):
                        x.add_edge(u, v)
                        out.append(k)
                elif aut:
                    x.add_edge(u, x.add_vertex(), "new")
                    out.append(k)
                else:
                    x.add_edge(u, v)
                    out.append(k)
            elif k == "edge out" and x.num_edges():
                x.remove_edge(r.choice(sorted(x.edges(), key=repr)))
                out.append(k)
            elif k == "final" and aut and vs:
                q = r.choice(vs)
                x.set_final(q, not x.is_final(q))
                out.append(k)
            elif k == "initial" and aut and vs:
                x.set_initial(r.choice(vs))
                out.append(k)
            elif k == "remove" and len(vs) > 1:
                q = r.choice(vs)
                if not aut or not x.is_initial(q):
                    x.remove_vertex(q)
                    out.append(k)
            elif k == "word" and isinstance(x, Automaton) and not node and vs:
                automaton_insert_string(x, r.choice(["newer", "", "ab"]))
                out.append(k)
        return out or None
    if isinstance(x, Heap):
        x.push(r.randrange(9))
        if r.random() < 0.5:
            x.pop()
        return ["heap"]
    return None


def grow(x, r, depth=0):
    """Some updates of an operand which keep it in the domain of its operation (acyclic, tree...); None if it has none."""
    if isinstance(x, (DigitalSequence, NodeAutomaton)):
        return None
    if isinstance(x, GraphView):
        return grow(x.g, r, depth + 1)
    if isinstance(x, Trie) or hasattr(x, "map_velement") or isinstance(x, Heap):
        return alter(x, r)
    if is_graph(x):
        out = []
        aut = hasattr(x, "is_final")
        for _ in range(r.randint(1, 3)):
            vs = sorted(x.vertices())
            k = r.choice(["leaf", "final", "edge out"])
            if k == "leaf" and vs:
                u, v = r.choice(vs), x.add_vertex()
                x.add_edge(u, v, r.choice(["a", "b", "new"])) if aut else x.add_edge(u, v)
                out.append(k)
            elif k == "final" and aut and vs:
                q = r.choice(vs)
                x.set_final(q, not x.is_final(q))
                out.append(k)
            elif k == "edge out" and x.num_edges():
                x.remove_edge(r.choice(sorted(x.edges(), key=repr)))
                out.append(k)
        return out or None
    if isinstance(x, dict) and len(x) > 1:
        ks = sorted(x, key=repr)
        vs = [x[k] for k in ks]
        r.shuffle(vs)
        x.update(zip(ks, vs))
        return ["values"]
    if isinstance(x, set) and x:
        x.discard(r.choice(sorted(x, key=repr)))
        return ["out of the set"]
    if isinstance(x, list) and x:
        if depth == 0 and all(isinstance(y, (dict, set)) or is_graph(y) for y in x):
            return [grow(y, r, 1) for y in x] or None
        r.shuffle(x)
        return ["list"]
    return None


def complete(operands, r):
    """Gives the new vertices and edges a value in the tables of the operands."""
    gs = [x.g if isinstance(x, GraphView) else x for x in operands.values() if is_graph(x)]
    vs = sorted({u for g in gs for u in g.vertices()})
    es = sorted({e for g in gs for e in g.edges()}, key=repr)

    def tables(x):
        if isinstance(x, dict):
            yield x
        elif isinstance(x, list):
            for y in x:
                yield from tables(y)
    for k in sorted(operands):
        for d in tables(operands[k]):
            if isinstance(d, defaultdict) or any(isinstance(q, str) for q in d):
                continue
            vals = sorted(d.values(), key=repr) or [1]
            if not all(isinstance(v, (bool, int, float, str)) for v in vals):
                continue
            for q in [] if d and not any(isinstance(q, int) for q in d) else vs:
                d.setdefault(q, r.choice(vals))
            for q in [] if d and any(isinstance(q, int) for q in d) else es:
                d.setdefault(q, r.choice(vals))
