"""C38: the BGL-style functions do what the methods do, and defaults mean what they say."""
import contextlib
import io

from pybgl import automaton as m_aut, bk_tree as m_bk, graph as m_graph, nfa as m_nfa, node_automaton as m_node, property_map as m_pmap
from pybgl.automaton import Automaton, make_automaton
from pybgl.bk_tree import BKTree
from pybgl.graph import DirectedGraph, EdgeDescriptor, UndirectedGraph
from pybgl.incidence_automaton import IncidenceAutomaton, make_incidence_automaton
from pybgl.incidence_graph import IncidenceGraph
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton, make_incidence_node_automaton
from pybgl.levenshtein_distance import levenshtein_distance
from pybgl.nfa import Nfa
from pybgl.node_automaton import NodeAutomaton, make_node_automaton
from pybgl.property_map import make_assoc_property_map, make_constant_property_map, make_func_property_map
from pybgl.trie import Trie

from collections import defaultdict
from .. import gen, nfaref, ops
from ..core import Fam

ANCHORS = ["graph.py", "automaton.py", "nfa.py", "node_automaton.py", "incidence_automaton.py", "incidence_node_automaton.py", "bk_tree.py", "property_map.py"]
RULE = (
    "A case is a history of updates applied to two objects of one of 11 classes, to the first by methods and to the second by the functions of the module of the class, "
    "answers and everything observable being compared at every step, then every question asked both ways; or transitions given to a constructor with or without "
    "its optional arguments. Non-trivial: at least 4 updates, or 2 transitions; distinct by history."
)
REQUIRED = [f"class {c}" for c in ("DirectedGraph", "UndirectedGraph", "IncidenceGraph", "Automaton", "IncidenceAutomaton", "NodeAutomaton", "IncidenceNodeAutomaton",
                                   "Nfa", "BKTree", "Trie", "property map")] + [
    "questions", "refused by both", "default initial state", "default arguments", "explained run", "questions before the end"]
ASSUMPTIONS = ["updates concern vertices and edges that are present"]


def canon(x):
    if isinstance(x, EdgeDescriptor):
        return ("e", x.source, x.target, repr(x.distinguisher))
    if isinstance(x, tuple):
        return ("t",) + tuple(canon(y) for y in x)
    if x is None or isinstance(x, (bool, int, float, str)):
        return (type(x).__name__, x)
    if hasattr(x, "__iter__"):
        return ("all", sorted((canon(y) for y in x), key=repr))
    return ("object", type(x).__name__)


def call(f):
    try:
        return canon(f())
    except Exception as e:
        return ("raised", type(e).__name__)


class Pair:
    """The same object twice: `a` driven by methods, `b` by functions."""

    def __init__(self, ctx, a, b, mod):
        self.ctx, self.a, self.b, self.m, self.log = ctx, a, b, mod, []
        ctx.note(cls=type(a).__name__, history=self.log)

    def both(self, name, meth, fun):
        self.log.append(name)
        x, y = call(meth), call(fun)
        self.ctx.eq(y, x, f"the function and the method {name} disagree")
        if x[0] == "raised":
            self.ctx.ev("refused by both")
        return x

    def same(self):
        self.ctx.eq(ops.snap(self.b), ops.snap(self.a), "the function and the method have different effects", step=self.log[-1:] or None)


def graph_step(p, r):
    a, b, m = p.a, p.b, m_graph
    vs = sorted(a.vertices())
    k = r.choice(["add_vertex", "add_vertex", "add_edge", "add_edge", "add_edge", "remove_edge", "remove_vertex"])
    if k == "add_vertex" or not vs:
        p.both("add_vertex", a.add_vertex, lambda: m.add_vertex(b))
    elif k == "add_edge":
        u, v = r.choice(vs), r.choice(vs)
        p.both(("add_edge", u, v), lambda: a.add_edge(u, v), lambda: m.add_edge(u, v, b))
    elif k == "remove_edge" and a.num_edges():
        e = r.choice(sorted(a.edges(), key=repr))
        p.both(("remove_edge", repr(e)), lambda: a.remove_edge(e), lambda: m.remove_edge(e, b))
    elif k == "remove_vertex" and r.random() < 0.5:
        u = r.choice(vs)
        p.both(("remove_vertex", u), lambda: a.remove_vertex(u), lambda: m.remove_vertex(u, b))
    p.same()


def graph_questions(p, r, m=m_graph):
    a, b = p.a, p.b
    p.both("is_directed", lambda: a.directed, lambda: m.is_directed(b))
    for n in ("vertices", "num_vertices", "edges", "num_edges"):
        p.both(n, getattr(a, n), lambda: getattr(m, n)(b))
    for n, truth in (("has_vertex", a.num_vertices() > 0), ("has_edge", a.num_edges() > 0)):
        p.both(n, getattr(a, n), lambda: getattr(m, n)(b))
        p.ctx.eq(bool(getattr(m, n)(b)), truth, f"{n} is wrong")
    for u in a.vertices():
        for n in ("out_edges", "out_degree", "in_edges", "in_degree"):
            p.both((n, u), lambda: getattr(a, n)(u), lambda: getattr(m, n)(u, b))
        p.ctx.eq(m.out_degree(u, b), len(list(a.out_edges(u))), "out_degree is not the number of out-edges", u=u)
    for e in a.edges():
        p.both(("source", repr(e)), lambda: a.source(e), lambda: m.source(e, b))
        p.both(("target", repr(e)), lambda: a.target(e), lambda: m.target(e, b))
    p.ctx.ev("questions")


def graph_history(ctx, C):
    r = ctx.rng
    k = r.choice([None, 0, 1, 3])
    mk = C if k is None else (lambda: C(k))
    p = Pair(ctx, mk(), mk(), m_graph)
    for _ in range(r.randint(4, 14)):
        graph_step(p, r)
        if r.random() < 0.1:
            graph_questions(p, r)  # the answers must follow the graph
    graph_questions(p, r)
    vs = sorted(p.a.vertices())
    for u in vs:
        for v in vs:
            x, y = p.a.edge(u, v), m_graph.edge(u, v, p.b)
            ctx.eq(y[1], x[1], "edge disagrees", u=u, v=v)
            if y[1]:
                ctx.expect(y[0] in list(p.a.out_edges(u)), "edge gives an edge that is not there", u=u, v=v, edge=y[0])
    return p


def automaton_step(p, r, al):
    a, b, m = p.a, p.b, p.m
    node, nfa = isinstance(a, NodeAutomaton), isinstance(a, Nfa)
    vs = sorted(a.vertices())
    k = r.choice(["add_vertex", "add_edge", "add_edge", "add_edge", "remove_edge", "remove_vertex", "set_initial", "set_final", "set_final", "insert"])
    if k == "add_vertex" or not vs:
        if node:
            s = r.choice(al)
            p.both(("add_vertex", s), lambda: a.add_vertex(s), lambda: m.add_vertex(s, b))
        else:
            p.both("add_vertex", a.add_vertex, lambda: m.add_vertex(b))
    elif k == "add_edge":
        u, v, s = r.choice(vs), r.choice(vs), r.choice(al)
        if node:
            if any(a.target(e) == v for e in a.out_edges(u)):
                return
            p.both(("add_edge", u, v), lambda: a.add_edge(u, v), lambda: m.add_edge(u, v, b))
        else:
            p.both(("add_edge", u, v, s), lambda: a.add_edge(u, v, s), lambda: m.add_edge(u, v, s, b))
    elif k == "remove_edge" and a.num_edges():
        e = r.choice(sorted(a.edges(), key=repr))
        p.both(("remove_edge", repr(e)), lambda: a.remove_edge(e), lambda: m.remove_edge(e, b))
    elif k == "remove_vertex" and r.random() < 0.3 and len(vs) > 1:
        u = r.choice(vs)
        if not a.is_initial(u):
            p.both(("remove_vertex", u), lambda: a.remove_vertex(u), lambda: m.remove_vertex(u, b))
    elif k in ("set_initial", "set_final"):
        u = r.choice(vs)
        x = r.choice([None, True, False])
        if x is False and k == "set_initial" and not nfa:
            x = True
        p.ctx.ev("default arguments", x is None)
        if x is None:
            p.both((k, u), lambda: getattr(a, k)(u), lambda: getattr(m, k)(u, b))
        else:
            p.both((k, u, x), lambda: getattr(a, k)(u, x), lambda: getattr(m, k)(u, b, x))
        q = {"set_initial": "is_initial", "set_final": "is_final"}[k]
        for y, how in ((getattr(a, q)(u), "method"), (getattr(m, q)(u, b), "function")):
            p.ctx.eq(bool(y), x is not False, f"{k} did not set the status", u=u, argument=x, how=how)
        if k == "set_initial" and not nfa:
            p.ctx.eq(m.initial(b), u, "set_initial did not set the initial state")
    elif k == "insert" and not node and not nfa:
        if a.initial() not in vs:
            return
        w = "".join(r.choice("ab") for _ in range(r.randint(0, 3)))
        p.both(("insert", w), lambda: a.automaton_insert_string(w), lambda: m.automaton_insert_string(b, w))
        q = a.automaton_insert_string(w)
        m.automaton_insert_string(b, w)
        p.ctx.eq(q, a.delta_word(a.initial(), w), "automaton_insert_string does not return the state the word leads to", w=w)
    if nfa and r.random() < 0.2 and vs:
        S = set(r.sample(vs, r.randint(1, len(vs))))
        p.both(("set_initials", sorted(S)), lambda: a.set_initials(set(S)), lambda: m.set_initials(set(S), b))
        p.ctx.eq(sorted(m.initials(b)), sorted(S), "set_initials did not set the initial states")
    p.same()


def automaton_questions(p, r, al, words):
    a, b, m = p.a, p.b, p.m
    nfa, node = isinstance(a, Nfa), isinstance(a, NodeAutomaton)
    vs = sorted(a.vertices())
    graph_questions(p, r, m)
    for n in ("alphabet", "finals") + (() if nfa else ("is_finite", "is_deterministic", "initial", "is_complete")):
        p.both(n, getattr(a, n), lambda: getattr(m, n)(b))
    if not nfa:
        p.ctx.expect(bool(m.is_finite(b)), "a finite automaton is said infinite")
        p.ctx.expect(bool(m.is_deterministic(b)), "a deterministic automaton is said nondeterministic")
    for u in vs:
        for n in ("sigma", "is_initial", "is_final") + (("symbol",) if node else ()):
            p.both((n, u), lambda: getattr(a, n)(u), lambda: getattr(m, n)(u, b))
        for s in al:
            p.both(("delta", u, s), lambda: a.delta(u, s), lambda: m.delta(u, s, b))
            for v in vs:
                if node:
                    p.both(("edge", u, v), lambda: a.edge(u, v), lambda: m.edge(u, v, b))
                else:
                    p.both(("edge", u, v, s), lambda: a.edge(u, v, s), lambda: m.edge(u, v, s, b))
    for e in a.edges():
        p.both(("label", repr(e)), lambda: a.label(e), lambda: m.label(e, b))
        if nfa:
            p.both(("is_epsilon_transition", repr(e)), lambda: a.is_epsilon_transition(e), lambda: m.is_epsilon_transition(e, b))
    if nfa:
        p.both("epsilon", lambda: a.epsilon, lambda: m.epsilon(b))
        p.both("initials", lambda: iter(a.initials), lambda: m.initials(b))
    elif a.initial() not in vs:
        return
    for w in words:
        p.both(("accepts", w), lambda: a.accepts(w), lambda: m.accepts(w, b))
        if nfa:
            p.both(("delta_word", w), lambda: a.delta_word(w), lambda: m.delta_word(w, b))
        else:
            u = r.choice(vs)
            p.both(("delta_word", u, w), lambda: a.delta_word(u, w), lambda: m.delta_word(u, w, b))
            p.both(("delta_best_effort", w), lambda: a.delta_best_effort(w), lambda: m.delta_best_effort(b, w))
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                y = m_aut.accepts_debug(w, b)
            p.ctx.eq(bool(y), bool(a.accepts(w)), "accepts_debug and accepts disagree", w=w)
            # the states it prints are those of the run
            q, text = a.initial(), out.getvalue()
            for s in w:
                t = a.delta(q, s)
                p.ctx.expect(f"{q} -> {t}" in text, "accepts_debug does not print the reached states", w=w, printed=text)
                if t is None:
                    break
                q = t
            p.ctx.ev("explained run")


def automaton_history(ctx, C):
    r = ctx.rng
    node, nfa = issubclass(C, NodeAutomaton), issubclass(C, Nfa)
    al = r.choice([["a", "b"], ["a"], [0, 1], ["\u00e9", "ab", ("x", 1)]])
    mod = m_nfa if nfa else m_node if node else m_aut
    if nfa:
        eps = r.choice(["\u03b5", "e", ""])
        al = al + [eps]
        mk = lambda: C(r2, epsilon=eps)  # noqa: E731
        r2 = r.choice([0, 1, 3])
    else:
        mk = C
    p = Pair(ctx, mk(), mk(), mod)
    p.same()
    words = [()] + [tuple(r.choice(al) for _ in range(r.randint(1, 5))) for _ in range(5)] + ["ab", "b"]
    for _ in range(r.randint(4, 16)):
        automaton_step(p, r, al)
        if r.random() < 0.1:  # the answers must follow the automaton
            ctx.ev("questions before the end")
            automaton_questions(p, r, al, words)
    if not node and not nfa:
        words += [gen.walk(r, gen.read_dfa(p.a), 6)] if p.a.initial() in set(p.a.vertices()) else []
    automaton_questions(p, r, al, words)
    return p


def refused(ctx):
    """A status the automaton was given as a function is only asked about states."""
    r = ctx.rng
    d = gen.dfa(r)
    A = r.choice([Automaton, IncidenceAutomaton])
    fin = {}

    def status(q):
        return fin[q]
    g = A(d.n, 0, make_func_property_map(status))
    for q, s, a in d.edges():
        g.add_edge(q, s, a)
    fin.update({q: q in d.finals for q in range(d.n)})
    g.set_initial(d.init)
    al = sorted(d.alphabet(), key=repr) + ["nowhere"]
    ctx.note(dfa=d)
    for w in gen.words(r, al, 8, 5) + [gen.walk(r, d, 5) + ("nowhere",), gen.walk(r, d, 5)]:
        x = d.accepts(w)
        ctx.eq(bool(m_aut.accepts(w, g)), x, "accepts is wrong", w=w)
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.eq(bool(m_aut.accepts_debug(w, g)), x, "accepts_debug is wrong", w=w)
    ctx.eq(set(m_aut.finals(g)), d.finals, "finals is wrong")
    try:
        z = m_aut.is_minimal(g)
    except NotImplementedError:
        pass
    else:
        ctx.expect(isinstance(z, bool), "is_minimal answers something which is neither true nor false", returned=z)
    ctx.nontrivial(repr(d))


def bk_tree(ctx):
    r = ctx.rng
    ctx.ev("class BKTree")
    xs = [gen.random_string(r, 4, "ab") for _ in range(r.randint(1, 8))]
    p = Pair(ctx, BKTree(levenshtein_distance), BKTree(levenshtein_distance), m_bk)
    for x in xs:
        u = r.choice([None, None, "root", "any"])
        if u is not None and p.a.num_vertices():
            u = sorted(p.a.vertices())[0] if u == "root" else r.choice(sorted(p.a.vertices()))
            p.both(("insert", x, u), lambda: p.a.insert(x, u), lambda: m_bk.bk_tree_insert(x, p.b, u))
        else:
            p.both(("insert", x), lambda: p.a.insert(x), lambda: m_bk.bk_tree_insert(x, p.b))
        p.same()
    for t in (m_bk.make_bk_tree(xs), m_bk.make_bk_tree(iter(xs)), m_bk.make_bk_tree(xs, levenshtein_distance)):
        ctx.eq(sorted(t.element(u) for u in t.vertices()), sorted(set(xs)), "make_bk_tree does not hold its elements", elements=xs)
        for x in xs:
            ctx.eq(t.search(x)[1], 0, "an element of make_bk_tree is not found", elements=xs, x=x)
    ctx.nontrivial(xs)
    v = p.both(("add_vertex", "zz"), lambda: p.a.add_vertex("zz"), lambda: m_bk.add_vertex("zz", p.b))
    ctx.eq(p.b.element(v[1]), "zz", "add_vertex does not record its element")
    p.same()
    x = r.choice(xs + ["zz"])
    v = p.both(("add_vertex", x), lambda: p.a.add_vertex(x), lambda: m_bk.add_vertex(x, p.b))
    ctx.eq(p.b.element(v[1]), x, "add_vertex does not record its element")
    p.same()


def trie(ctx):
    r = ctx.rng
    ctx.ev("class Trie")
    p = Pair(ctx, Trie(), Trie(), m_aut)
    for _ in range(r.randint(2, 8)):
        w = gen.random_string(r, 4, "ab")
        p.both(("insert", w), lambda: p.a.automaton_insert_string(w), lambda: m_aut.automaton_insert_string(p.b, w))
        p.same()
    graph_questions(p, r, m_aut)
    ctx.nontrivial(repr(p.log))


def pmaps(ctx):
    r = ctx.rng
    ctx.ev("class property map")
    da, db = defaultdict(int), defaultdict(int)
    a, b = make_assoc_property_map(da), make_assoc_property_map(db)
    log = []
    ctx.note(history=log)
    for _ in range(r.randint(4, 12)):
        k, v = r.choice([0, "a", (1, 2), None]), r.choice([0, None, "x", [1]])
        log.append((k, v))
        if r.random() < 0.6:
            a[k] = v
            m_pmap.put(b, k, v)
        ctx.eq(m_pmap.get(b, k), a[k], "get and [] disagree", key=k)
    ctx.eq(dict(db), dict(da), "put and []= disagree")
    for m in (make_func_property_map(repr), make_constant_property_map(3), m_pmap.identity_property_map()):
        for k in (0, "a", (1, 2)):
            ctx.eq(m_pmap.get(m, k), m[k], "get and [] disagree", key=k)
            for f in (lambda: m_pmap.put(m, k, 1), lambda: m.__setitem__(k, 1)):
                try:
                    f()
                except Exception:
                    continue
                ctx.fail("a read-only map was written", key=k)
    ctx.nontrivial(repr(log))


def constructors(ctx):
    """make_* with each subset of their optional arguments."""
    r = ctx.rng
    n = r.randint(1, 6)
    which = ctx.i % 4
    names = [0] + r.sample([1, 2, 3, 5, 9, -1, -4], n - 1)
    if which < 2:
        d = gen.dfa(r, alphabet=r.choice([["a", "b"], [0, 1]]), n_max=n, n_min=n)
        ts = [(names[q], names[s], a) for q, s, a in d.edges()]
    else:
        d, sym = gen.node_dfa(r, n_max=n)
        names = names[:d.n]
        ts = [(names[q], names[s]) for q, s, a in d.edges()]
    used = {x for t in ts for x in t[:2]}
    q0 = r.choice(["default", "zero", "other"])
    if q0 != "other" and ts and 0 not in used:
        q0 = "other"
    start = 0 if q0 != "other" else r.choice(sorted(used)) if used else 0
    fin = {names[q] for q in d.finals} if r.random() < 0.7 else None
    kw = {}
    if q0 != "default":
        kw["q0n"] = start
    else:
        ctx.ev("default initial state")
    if fin is not None:
        kw["pmap_vfinal"] = make_func_property_map(lambda q: q in fin) if r.random() < 0.5 else make_assoc_property_map(defaultdict(bool, {q: True for q in fin}))
    if which >= 2:
        kw["pmap_vlabel"] = make_func_property_map(lambda q: sym[names.index(q)])
    make, cls = [(make_automaton, Automaton), (make_incidence_automaton, IncidenceAutomaton), (make_node_automaton, NodeAutomaton),
                 (make_incidence_node_automaton, IncidenceNodeAutomaton)][which]
    ctx.note(function=make.__name__, transitions=ts, initial=q0, start=start, finals=fin)
    if r.random() < 0.5 or which < 2 and "q0n" not in kw and "pmap_vfinal" in kw:
        g = make(ts, **kw)
    elif which < 2:
        g = make(ts, *[kw[k] for k in ("q0n", "pmap_vfinal") if k in kw])
    else:
        g = make(ts, kw.pop("pmap_vlabel"), **kw)
    ctx.eq(type(g), cls, "the constructor does not make the class it names")
    ctx.eq((g.num_vertices(), g.num_edges()), (len(used), len(set(ts))), "the constructor does not make the states and transitions it is given")
    if used:
        lab = (lambda q, a: sym[names.index(q)]) if which >= 2 else (lambda q, a: a)
        tr = {}
        for t in ts:
            a = lab(t[1], t[-1])
            tr.setdefault(t[0], {})[a] = t[1]
        want = gen.Dfa(len(used), start, fin or set(), tr)
        w = gen.difference(gen.read_dfa(g), want)
        ctx.expect(w is None, "the constructor does not make the automaton it is given", word=w)
        ctx.eq(len(g.finals()), len((fin or set()) & used), "the constructor makes other final states", finals=g.finals())
    if len(ts) > 1:
        ctx.nontrivial(which, ts, q0, start, fin)


def history(C, f):
    def fam(ctx):
        ctx.ev("class " + C.__name__)
        p = f(ctx, C)
        if len(p.log) > 4:
            ctx.nontrivial(C.__name__, repr(p.log)[:3000])
    return fam


FAMILIES = [Fam("history " + C.__name__, history(C, graph_history), 1600, 24000) for C in (DirectedGraph, UndirectedGraph, IncidenceGraph)] + [
    Fam("history " + C.__name__, history(C, automaton_history), 1600, 24000)
    for C in (Automaton, IncidenceAutomaton, NodeAutomaton, IncidenceNodeAutomaton, Nfa)] + [
    Fam("refused", refused, 3200, 16000),
    Fam("bk_tree", bk_tree, 600, 12000),
    Fam("trie", trie, 400, 8000),
    Fam("property maps", pmaps, 600, 12000),
    Fam("constructors", constructors, 12000, 120000),
]
